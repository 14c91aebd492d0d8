//! Type-erased access to corries: builds simulations for run-time choices of physics, flux scheme and mesh size, and
//! gives the oracles plain vectors to look at.

use color_eyre::{eyre::bail, Result};
use corries::prelude::*;
use corries::{
    rhs::numflux::{Hll, Kt, NumFlux},
    state::variables::Variables,
    time::timestep::TimeStep,
};
use ndarray::{Array1, Array2};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};

pub type V2 = Vec<Vec<f64>>;

/// The mesh sizes (including the 4 ghost cells) simulations are instantiated for
pub const SIZES: [usize; 17] = [6, 7, 8, 9, 10, 12, 13, 16, 17, 33, 36, 68, 100, 132, 260, 515, 1030];

// ---------------------------------------------------------------------------------------------------------------------
// thread local channels between oracles and the callbacks that corries calls
// ---------------------------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Default)]
pub struct InitData {
    /// [E][S]
    pub prim: V2,
    /// sound speed per cell (isothermal physics only)
    pub c: Vec<f64>,
    /// error to return
    pub fail: Option<String>,
}

#[derive(Clone, Debug, Default)]
pub struct StepRec {
    pub t_before: f64,
    pub t_next: f64,
    pub dt: f64,
    pub t_after: f64,
    pub iter: usize,
    pub ok: bool,
    pub cons_before: V2,
    pub prim_before: V2,
    pub c_before: Vec<f64>,
    pub cons_after: V2,
    pub prim_after: V2,
    pub c_after: Vec<f64>,
    pub evals: u64,
}

/// du/dt of the synthetic problems used to judge time integration
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ode {
    /// per equation: rate constants
    pub lin: Vec<f64>,
    pub quad: Vec<f64>,
    pub couple: f64,
    /// coupling to the neighbour cells (so ghost cells matter)
    pub nb: f64,
    pub scale: Vec<f64>,
}
impl Ode {
    /// The right-hand side (in the sense of du/dt = -rhs) at cell `i`
    pub fn rhs(&self, u: &dyn Fn(usize, usize) -> f64, e: usize, j: usize, i: usize) -> f64 {
        let x = u(j, i) / self.scale[j];
        let k = (j + 1) % e;
        let y = u(k, i) / self.scale[k];
        let z = (u(j, i + 1) - u(j, i - 1)) / self.scale[j];
        self.scale[j] * (self.lin[j] * x + self.quad[j] * x * x + self.couple * y * x + self.nb * z)
    }
}

thread_local! {
    static SAMPLE: RefCell<Vec<usize>> = RefCell::new(vec![]);
    static INIT: RefCell<InitData> = RefCell::new(InitData::default());
    static ODE: RefCell<Option<Ode>> = RefCell::new(None);
    static REC_ON: Cell<u8> = Cell::new(0);
    static REC: RefCell<Vec<StepRec>> = RefCell::new(vec![]);
    static EVALS: Cell<u64> = Cell::new(0);
    static BUDGET: Cell<u64> = Cell::new(DEFAULT_BUDGET);
    static EXCEEDED: Cell<bool> = Cell::new(false);
    /// 0 = finite, otherwise the evaluation (1-based) whose result is spoiled with a NaN/inf
    /// called before the given step (counted from 0)
    static HOOK: RefCell<Option<(usize, Box<dyn FnOnce()>)>> = RefCell::new(None);
    static STEPS: Cell<usize> = Cell::new(0);
    static POISON: Cell<(u64, f64, usize, usize)> = Cell::new((0, 0.0, 0, 0));
}

pub const DEFAULT_BUDGET: u64 = 400_000;

pub fn reset_thread_state() {
    INIT.with(|x| *x.borrow_mut() = InitData::default());
    ODE.with(|x| *x.borrow_mut() = None);
    REC_ON.with(|x| x.set(0));
    REC.with(|x| x.borrow_mut().clear());
    EVALS.with(|x| x.set(0));
    BUDGET.with(|x| x.set(DEFAULT_BUDGET));
    EXCEEDED.with(|x| x.set(false));
    POISON.with(|x| x.set((0, 0.0, 0, 0)));
    HOOK.with(|x| *x.borrow_mut() = None);
    STEPS.with(|x| x.set(0));
}
/// Calls `f` before step `n` from now on (counted from 0)
pub fn at_step(n: usize, f: impl FnOnce() + 'static) {
    STEPS.with(|x| x.set(0));
    HOOK.with(|x| *x.borrow_mut() = Some((n, Box::new(f))));
}
pub fn budget_exceeded() -> bool {
    EXCEEDED.with(|x| x.get())
}
pub fn set_budget(n: u64) {
    BUDGET.with(|x| x.set(n));
}
pub fn reset_evals() {
    EVALS.with(|x| x.set(0));
}
pub fn evals() -> u64 {
    EVALS.with(|x| x.get())
}
pub fn set_ode(o: Ode) {
    ODE.with(|x| *x.borrow_mut() = Some(o));
}
/// Whether step `n` (counted from 0) of a long run is recorded with its states
fn sampled(n: usize) -> bool {
    let near_power = |k: usize| (n + 1).abs_diff(k) <= 1;
    n < 3
        || near_power((n + 1).next_power_of_two())
        || near_power((n + 1).next_power_of_two() / 2)
        || [99, 199, 999, 9_999].contains(&n)
        || n % 1000 == 0
        || SAMPLE.with(|x| x.borrow().contains(&n))
}
/// Further steps that are recorded with their states
pub fn sample(at: Vec<usize>) {
    SAMPLE.with(|x| *x.borrow_mut() = at);
}
/// level 0: off, 1: times only, 2: with states, 3: some of the steps with states
pub fn record(level: u8) {
    if level == 3 {
        STEPS.with(|x| x.set(0));
    }
    REC_ON.with(|x| x.set(level));
    REC.with(|x| x.borrow_mut().clear());
}
pub fn take_record() -> Vec<StepRec> {
    REC.with(|x| std::mem::take(&mut *x.borrow_mut()))
}
/// Spoil entry [j, i] of the `n`th right-hand side from now on
pub fn poison(n: u64, value: f64, j: usize, i: usize) {
    let now = evals();
    POISON.with(|x| x.set((now + n, value, j, i)));
}

// ---------------------------------------------------------------------------------------------------------------------
// flux scheme and time solver wrappers
// ---------------------------------------------------------------------------------------------------------------------

/// Delegates to corries' own schemes, counts evaluations, and optionally replaces the right-hand side
pub enum Flux<const E: usize, const S: usize> {
    Hll(Hll<E, S>),
    Kt(Kt<E, S>),
}

impl<const E: usize, const S: usize> NumFlux<E, S> for Flux<E, S> {
    fn new(c: &NumFluxConfig, mesh: &Mesh<S>) -> Result<Self> {
        Ok(match c {
            NumFluxConfig::Hll => Self::Hll(Hll::new(c, mesh)?),
            NumFluxConfig::Kt { .. } => Self::Kt(Kt::new(c, mesh)?),
        })
    }
    fn calc_dflux_dxi<P: Physics<E, S>>(
        &mut self,
        dflux_dxi: &mut Array2<f64>,
        u: &mut State<P, E, S>,
        mesh: &Mesh<S>,
    ) -> Result<()> {
        let n = EVALS.with(|x| {
            x.set(x.get() + 1);
            x.get()
        });
        if n > BUDGET.with(|x| x.get()) {
            EXCEEDED.with(|x| x.set(true));
            bail!("harness: evaluation budget exceeded");
        }
        let ode = ODE.with(|o| {
            if let Some(o) = o.borrow().as_ref() {
                let c = &u.cent.cons;
                for j in 0..E {
                    for i in 2..S - 2 {
                        dflux_dxi[[j, i]] = o.rhs(&|j, i| c[[j, i]], E, j, i);
                    }
                }
                true
            } else {
                false
            }
        });
        if !ode {
            match self {
                Self::Hll(x) => x.calc_dflux_dxi(dflux_dxi, u, mesh)?,
                Self::Kt(x) => x.calc_dflux_dxi(dflux_dxi, u, mesh)?,
            }
        }
        let (at, val, j, i) = POISON.with(|x| x.get());
        if at == n {
            dflux_dxi[[j, i]] = val;
        }
        Ok(())
    }
}

/// Delegates to corries' Runge-Kutta-Fehlberg solver and records what it does
pub struct Rec<P: Physics<E, S>, const E: usize, const S: usize>(RungeKuttaFehlberg<P, E, S>);

impl<P: Physics<E, S> + 'static, const E: usize, const S: usize> TimeSolver<P, E, S> for Rec<P, E, S> {
    fn new(config: &CorriesConfig) -> Result<Self> {
        Ok(Self(RungeKuttaFehlberg::new(config)?))
    }
    fn next_solution<N: NumFlux<E, S>>(
        &mut self,
        time: &mut TimeStep,
        u: &mut State<P, E, S>,
        rhs: &mut Rhs<N, E, S>,
        mesh: &Mesh<S>,
    ) -> Result<()> {
        let level = REC_ON.with(|x| x.get());
        let n = STEPS.with(|x| x.replace(x.get() + 1));
        let hook = HOOK.with(|x| x.borrow_mut().take_if(|h| h.0 == n));
        if let Some((_, f)) = hook {
            f()
        }
        let mut rec = StepRec {
            t_before: time.t,
            t_next: time.t_next_output,
            ..Default::default()
        };
        let e0 = evals();
        // of long runs only some steps with their states
        let level = if level == 3 && !sampled(n) { 1 } else { level };
        if level >= 2 {
            rec.cons_before = v2(&u.cent.cons);
            rec.prim_before = v2(&u.cent.prim);
            rec.c_before = u.cent.c_sound.to_vec();
        }
        let r = self.0.next_solution(time, u, rhs, mesh);
        if level >= 1 {
            rec.dt = time.dt;
            rec.t_after = time.t;
            rec.iter = time.iter;
            rec.ok = r.is_ok();
            rec.evals = evals() - e0;
            if level >= 2 {
                rec.cons_after = v2(&u.cent.cons);
                rec.prim_after = v2(&u.cent.prim);
                rec.c_after = u.cent.c_sound.to_vec();
            }
            REC.with(|x| x.borrow_mut().push(rec));
        }
        r
    }
}

fn init<P, N, T, const E: usize, const S: usize>(
    u: &mut State<P, E, S>,
    _: &mut Solver<P, N, T, E, S>,
    _: &Mesh<S>,
) -> Result<()>
where
    P: Physics<E, S>,
    N: NumFlux<E, S>,
    T: TimeSolver<P, E, S>,
{
    INIT.with(|x| {
        let d = x.borrow();
        for j in 0..E.min(d.prim.len()) {
            for i in 0..S {
                u.cent.prim[[j, i]] = d.prim[j][i];
            }
        }
        if !P::IS_ADIABATIC && d.c.len() == S {
            u.cent.c_sound.assign(&Array1::from(d.c.clone()));
        }
        match &d.fail {
            Some(m) => bail!("{m}"),
            None => Ok(()),
        }
    })
}

// ---------------------------------------------------------------------------------------------------------------------
// snapshots
// ---------------------------------------------------------------------------------------------------------------------

pub fn v2(a: &Array2<f64>) -> V2 {
    a.rows().into_iter().map(|r| r.to_vec()).collect()
}
fn a2(v: &V2) -> Array2<f64> {
    Array2::from_shape_fn((v.len(), v[0].len()), |(j, i)| v[j][i])
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Snap {
    pub prim: V2,
    pub cons: V2,
    pub c: Vec<f64>,
    pub eig: V2,
    pub flux: V2,
    pub gamma: f64,
}
fn bits(v: &V2) -> Vec<Vec<u64>> {
    v.iter().map(|r| r.iter().map(|x| x.to_bits()).collect()).collect()
}
pub fn same_bits(a: &V2, b: &V2) -> bool {
    bits(a) == bits(b)
}
pub fn same_bits1(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits())
}
impl Snap {
    /// Names the first field that differs in any bit
    pub fn diff(&self, o: &Snap) -> Option<&'static str> {
        if !same_bits(&self.prim, &o.prim) {
            Some("prim")
        } else if !same_bits(&self.cons, &o.cons) {
            Some("cons")
        } else if !same_bits1(&self.c, &o.c) {
            Some("c_sound")
        } else if !same_bits(&self.eig, &o.eig) {
            Some("eigen_vals")
        } else if !same_bits(&self.flux, &o.flux) {
            Some("flux")
        } else if self.gamma.to_bits() != o.gamma.to_bits() {
            Some("gamma")
        } else {
            None
        }
    }
}

#[derive(Clone, Debug)]
pub struct MeshSnap {
    pub vecs: Vec<(&'static str, Vec<f64>)>,
    pub scalars: Vec<(&'static str, f64)>,
    pub ints: Vec<(&'static str, usize)>,
    pub is_log: bool,
    pub is_lin: bool,
}
impl MeshSnap {
    pub fn v(&self, name: &str) -> &Vec<f64> {
        &self.vecs.iter().find(|x| x.0 == name).unwrap().1
    }
    pub fn s(&self, name: &str) -> f64 {
        self.scalars.iter().find(|x| x.0 == name).unwrap().1
    }
    pub fn n(&self, name: &str) -> usize {
        self.ints.iter().find(|x| x.0 == name).unwrap().1
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum D {
    West,
    Cent,
    East,
}
pub const ALL_D: [D; 3] = [D::West, D::Cent, D::East];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Op {
    Prim(D),
    Prim0,
    Cons(D),
    Cons0,
    Derived(D),
    Derived0,
    CSound(D),
    CSound0,
    Eig(D),
    Eig0,
    EigMin(D),
    EigMin0,
    EigMax(D),
    EigMax0,
    Flux(D),
    Flux0,
    FromPrim(D),
    FromPrim0,
    FromCons(D),
    FromCons0,
    InitWestEast,
    Assign,
    AssignD(D),
    AssignCent,
    /// exchange the state with the spare one
    Swap,
}

pub trait Sim {
    fn e(&self) -> usize;
    fn s(&self) -> usize;
    fn vars(&self, d: D) -> Snap;
    fn set_prim(&mut self, d: D, v: &V2);
    fn set_cons(&mut self, d: D, v: &V2);
    fn set_c(&mut self, d: D, v: &[f64]);
    fn set_junk(&mut self, d: D, eig: &V2, flux: &V2);
    fn mesh(&self) -> MeshSnap;
    fn op(&mut self, op: Op);
    /// Applies the boundary condition of one edge only
    fn boundary(&mut self, west: bool, d: D);
    /// Flags the mesh as logarithmic
    fn set_logarithmic(&mut self);
    fn rhs_update(&mut self) -> Result<()>;
    fn rhs(&self) -> V2;
    fn ts(&mut self) -> &mut TimeStep;
    fn step(&mut self) -> Result<()>;
    fn run(&mut self) -> Result<()>;
    fn writer(&mut self) -> &mut Writer;
    fn collect(&mut self) -> Result<()>;
    fn write_metadata(&mut self) -> Result<()>;
    fn write_now(&mut self) -> Result<()>;
    fn cfl(&self, c: f64) -> Result<f64>;
    /// Physics::validate
    fn physics_ok(&self, d: D) -> bool;
    fn accessors(&self, d: D) -> Vec<Vec<f64>>;
    fn is_adiabatic(&self) -> bool;
    /// applies corries' own set-ups to the current state (true: Noh, false: Sod)
    fn setup(&mut self, noh: bool) -> Result<()>;

    /// The state another solver may continue from
    fn cons(&self) -> V2 {
        self.vars(D::Cent).cons
    }
    fn prim(&self) -> V2 {
        self.vars(D::Cent).prim
    }
}

struct SimImpl<P, N, T, const E: usize, const S: usize>
where
    P: Physics<E, S>,
    N: NumFlux<E, S>,
    T: TimeSolver<P, E, S>,
{
    c: CorriesComponents<P, N, T, E, S>,
    spare: State<P, E, S>,
}

macro_rules! dird {
    ($u:expr, $d:expr, $m:ident $(, $a:expr)*) => {
        match $d {
            D::West => $u.$m::<{ Direction::West as u8 }>($($a),*),
            D::Cent => $u.$m::<{ Direction::Cent as u8 }>($($a),*),
            D::East => $u.$m::<{ Direction::East as u8 }>($($a),*),
        }
    };
}

impl<P, N, T, const E: usize, const S: usize> SimImpl<P, N, T, E, S>
where
    P: Physics<E, S>,
    N: NumFlux<E, S>,
    T: TimeSolver<P, E, S>,
{
    fn va(&self, d: D) -> &Variables<E, S> {
        match d {
            D::West => &self.c.0.west,
            D::Cent => &self.c.0.cent,
            D::East => &self.c.0.east,
        }
    }
    fn vm(&mut self, d: D) -> &mut Variables<E, S> {
        match d {
            D::West => &mut self.c.0.west,
            D::Cent => &mut self.c.0.cent,
            D::East => &mut self.c.0.east,
        }
    }
}

impl<P, N, T, const E: usize, const S: usize> Sim for SimImpl<P, N, T, E, S>
where
    P: Physics<E, S> + 'static,
    N: NumFlux<E, S>,
    T: TimeSolver<P, E, S>,
{
    fn e(&self) -> usize {
        E
    }
    fn s(&self) -> usize {
        S
    }
    fn vars(&self, d: D) -> Snap {
        let v = self.va(d);
        Snap {
            prim: v2(&v.prim),
            cons: v2(&v.cons),
            c: v.c_sound.to_vec(),
            eig: v2(&v.eigen_vals),
            flux: v2(&v.flux),
            gamma: v.gamma,
        }
    }
    fn set_prim(&mut self, d: D, v: &V2) {
        self.vm(d).prim.assign(&a2(v));
    }
    fn set_cons(&mut self, d: D, v: &V2) {
        self.vm(d).cons.assign(&a2(v));
    }
    fn set_c(&mut self, d: D, v: &[f64]) {
        self.vm(d).c_sound.assign(&Array1::from(v.to_vec()));
    }
    fn set_junk(&mut self, d: D, eig: &V2, flux: &V2) {
        self.vm(d).eigen_vals.assign(&a2(eig));
        self.vm(d).flux.assign(&a2(flux));
    }
    fn mesh(&self) -> MeshSnap {
        let m = &self.c.2;
        macro_rules! vecs { ($($f:ident),*) => { vec![$((stringify!($f), m.$f.to_vec())),*] } }
        macro_rules! scal { ($($f:ident),*) => { vec![$((stringify!($f), m.$f)),*] } }
        MeshSnap {
            vecs: vecs![
                xi_cent, xi_west, xi_east, xi_cent_inv, xi_west_inv, xi_east_inv, h_xi_cent, h_xi_west, h_xi_east,
                h_eta_cent, h_eta_west, h_eta_east, h_phi_cent, h_phi_west, h_phi_east, sqrt_g, line_xi, line_xi_inv,
                d_area_xi_deta_dphi_west, d_area_xi_deta_dphi_east, area_cell, area_west, area_east, volume,
                deta_dphi_d_volume, cell_width, cell_width_inv, cexe, cpxp, cxex, cpep, cxpx, cepe, minus_cexe,
                minus_cpxp, minus_cxex, minus_cpep, minus_cxpx, minus_cepe
            ],
            scalars: scal![xi_in, xi_out, dxi, deta, dphi],
            ints: scal![n_comp, n_gc, n_all, imin, imax, ixi_in, ixi_out],
            is_log: m.is_logarithmic,
            is_lin: m.is_linear,
        }
    }
    fn op(&mut self, op: Op) {
        let (ref mut u, ref mut solver, ref mesh, _) = self.c;
        let (bw, be) = (&mut solver.rhs.boundary_west, &mut solver.rhs.boundary_east);
        match op {
            Op::Prim(d) => dird!(u, d, update_prim_d),
            Op::Prim0 => u.update_prim(),
            Op::Cons(d) => dird!(u, d, update_cons_d),
            Op::Cons0 => u.update_cons(),
            Op::Derived(d) => dird!(u, d, update_derived_variables_d),
            Op::Derived0 => u.update_derived_variables(),
            Op::CSound(d) => dird!(u, d, update_c_sound_d),
            Op::CSound0 => u.update_c_sound(),
            Op::Eig(d) => dird!(u, d, update_eigen_vals_d),
            Op::Eig0 => u.update_eigen_vals(),
            Op::EigMin(d) => dird!(u, d, update_eigen_vals_min_d),
            Op::EigMin0 => u.update_eigen_vals_min(),
            Op::EigMax(d) => dird!(u, d, update_eigen_vals_max_d),
            Op::EigMax0 => u.update_eigen_vals_max(),
            Op::Flux(d) => dird!(u, d, update_flux_d),
            Op::Flux0 => u.update_flux(),
            Op::FromPrim(d) => dird!(u, d, update_vars_from_prim_d, bw, be, mesh),
            Op::FromPrim0 => u.update_vars_from_prim(bw, be, mesh),
            Op::FromCons(d) => dird!(u, d, update_vars_from_cons_d, bw, be, mesh),
            Op::FromCons0 => u.update_vars_from_cons(bw, be, mesh),
            Op::InitWestEast => u.init_west_east(),
            Op::Assign => u.assign(&self.spare),
            Op::AssignD(d) => dird!(u, d, assign_vars_d, &self.spare),
            Op::AssignCent => u.assign_vars(&self.spare),
            Op::Swap => std::mem::swap(u, &mut self.spare),
        }
    }
    fn set_logarithmic(&mut self) {
        self.c.2.is_logarithmic = true;
        self.c.2.is_linear = false;
    }
    fn boundary(&mut self, west: bool, d: D) {
        let (ref mut u, ref mut solver, ref mesh, _) = self.c;
        let v = match d {
            D::West => &mut u.west,
            D::Cent => &mut u.cent,
            D::East => &mut u.east,
        };
        if west {
            solver.rhs.boundary_west.apply(v, mesh)
        } else {
            solver.rhs.boundary_east.apply(v, mesh)
        }
    }
    fn rhs_update(&mut self) -> Result<()> {
        let (ref mut u, ref mut solver, ref mesh, _) = self.c;
        solver.rhs.update(u, mesh)
    }
    fn rhs(&self) -> V2 {
        v2(&self.c.1.rhs.full_rhs)
    }
    fn ts(&mut self) -> &mut TimeStep {
        &mut self.c.1.timestep
    }
    fn step(&mut self) -> Result<()> {
        let (ref mut u, ref mut solver, ref mesh, _) = self.c;
        solver.next_solution(u, mesh)
    }
    fn run(&mut self) -> Result<()> {
        self.c.run_corries()
    }
    fn writer(&mut self) -> &mut Writer {
        &mut self.c.3
    }
    fn collect(&mut self) -> Result<()> {
        let (ref u, ref solver, ref mesh, ref mut writer) = self.c;
        writer.update_data(&u.cent, &solver.timestep, mesh)
    }
    fn write_metadata(&mut self) -> Result<()> {
        self.c.3.write_metadata::<S>()
    }
    fn write_now(&mut self) -> Result<()> {
        let (ref u, ref solver, ref mesh, ref mut writer) = self.c;
        writer.update_data(&u.cent, &solver.timestep, mesh)?;
        writer.write_output()
    }
    fn cfl(&self, c: f64) -> Result<f64> {
        self.c.0.calc_dt_cfl(c, &self.c.2)
    }
    fn physics_ok(&self, d: D) -> bool {
        P::validate(self.va(d)).is_ok()
    }
    fn accessors(&self, d: D) -> Vec<Vec<f64>> {
        let v = self.va(d);
        vec![
            P::rho_prim(v).to_vec(),
            P::rho_cons(v).to_vec(),
            P::xi_vel(v).to_vec(),
            P::xi_mom(v).to_vec(),
            P::eta_vel(v).to_vec(),
            P::eta_mom(v).to_vec(),
            P::pressure(v).to_vec(),
            P::energy(v).to_vec(),
        ]
    }
    fn is_adiabatic(&self) -> bool {
        self.c.0.is_adiabatic()
    }
    fn setup(&mut self, noh: bool) -> Result<()> {
        let (ref mut u, ref mut solver, ref mesh, _) = self.c;
        if noh {
            corries::initfuncs::init_noh::<P, N, T, E, S>(u, solver, mesh)
        } else {
            corries::initfuncs::init_sod::<P, N, T, E, S>(u, solver, mesh)
        }
    }
}

fn build_impl<P, N, T, const E: usize, const S: usize>(cfg: &CorriesConfig, data: InitData) -> Result<Box<dyn Sim>>
where
    P: Physics<E, S> + 'static,
    N: NumFlux<E, S> + 'static,
    T: TimeSolver<P, E, S> + 'static,
{
    INIT.with(|x| *x.borrow_mut() = data);
    let c = cfg.init_corries::<P, N, T, E, S>(init)?;
    Ok(Box::new(SimImpl {
        spare: State::new(&cfg.physics_config),
        c,
    }))
}

macro_rules! dispatch {
    ($s:expr, $cfg:expr, $data:expr, $ad:expr, [$($n:literal),*]) => {
        match ($ad, $s) {
            $((true, $n) => build_impl::<Euler1DAdiabatic<$n>, Flux<3, $n>, Rec<Euler1DAdiabatic<$n>, 3, $n>, 3, $n>($cfg, $data),)*
            $((false, $n) => build_impl::<Euler1DIsot<$n>, Flux<2, $n>, Rec<Euler1DIsot<$n>, 2, $n>, 2, $n>($cfg, $data),)*
            (_, n) => panic!("no simulation of size {n}"),
        }
    };
}

/// Builds a simulation. The error is the one returned by corries.
pub fn build(cfg: &CorriesConfig, adiabatic: bool, s: usize, data: InitData) -> Result<Box<dyn Sim>> {
    dispatch!(s, cfg, data, adiabatic, [6, 7, 8, 9, 10, 12, 13, 16, 17, 33, 36, 68, 100, 132, 260, 515, 1030])
}

/// Builds a simulation out of corries' own types, without the recording wrappers. Only for S = 12.
pub fn build_plain(cfg: &CorriesConfig, adiabatic: bool, hll: bool, data: InitData) -> Result<Box<dyn Sim>> {
    type PA = Euler1DAdiabatic<12>;
    type PI = Euler1DIsot<12>;
    match (adiabatic, hll) {
        (true, true) => build_impl::<PA, Hll<3, 12>, RungeKuttaFehlberg<PA, 3, 12>, 3, 12>(cfg, data),
        (true, false) => build_impl::<PA, Kt<3, 12>, RungeKuttaFehlberg<PA, 3, 12>, 3, 12>(cfg, data),
        (false, true) => build_impl::<PI, Hll<2, 12>, RungeKuttaFehlberg<PI, 2, 12>, 2, 12>(cfg, data),
        (false, false) => build_impl::<PI, Kt<2, 12>, RungeKuttaFehlberg<PI, 2, 12>, 2, 12>(cfg, data),
    }
}

pub fn errstr(e: &color_eyre::Report) -> String {
    format!("{e:#}")
}

// ---------------------------------------------------------------------------------------------------------------------
// user-defined physics: the built-in equations in another order, together with a passive velocity
// ---------------------------------------------------------------------------------------------------------------------

/// Adiabatic gas with the equations (eta momentum, energy, density, xi momentum)
#[derive(Clone, Debug, Default, PartialEq)]
pub struct WideAdiabatic<const S: usize>;
/// Isothermal gas with the equations (xi momentum, eta momentum, density)
#[derive(Clone, Debug, Default, PartialEq)]
pub struct WideIsothermal<const S: usize>;

/// Row of the wide system for every equation of the built-in system
pub fn wide_rows(adiabatic: bool) -> &'static [usize] {
    if adiabatic {
        &[2, 3, 1]
    } else {
        &[2, 0]
    }
}
pub fn wide_eta(adiabatic: bool) -> usize {
    if adiabatic {
        0
    } else {
        1
    }
}

/// The rows of the built-in system in a state of their own
fn narrow<const W: usize, const E: usize, const S: usize>(v: &Variables<W, S>, rows: &[usize]) -> Variables<E, S> {
    let mut n = Variables::<E, S>::new(&PhysicsConfig { adiabatic_index: v.gamma, units_mode: UnitsMode::SI });
    for (j, &r) in rows.iter().enumerate() {
        n.prim.row_mut(j).assign(&v.prim.row(r));
        n.cons.row_mut(j).assign(&v.cons.row(r));
    }
    n.c_sound.assign(&v.c_sound);
    n
}

macro_rules! wide_physics {
    ($name:ident, $w:literal, $e:literal, $base:ident, $ad:literal, $rho:expr, $xi:expr, $eta:expr, $p:expr) => {
        impl<const S: usize> Physics<$w, S> for $name<S> {
            const NUM_EQ: usize = $w;
            const IS_ADIABATIC: bool = $ad;
            const JRHO: usize = $rho;
            const JXI: usize = $xi;
            const JETA: usize = $eta;
            const JPRESSURE: usize = $p;
            fn new() -> Self {
                Self
            }
            fn name() -> String {
                stringify!($name).to_string()
            }
            fn update_prim(vars: &mut Variables<$w, S>) {
                let mut n = narrow::<$w, $e, S>(vars, wide_rows($ad));
                $base::<S>::update_prim(&mut n);
                for (j, &r) in wide_rows($ad).iter().enumerate() {
                    vars.prim.row_mut(r).assign(&n.prim.row(j));
                }
                for i in 0..S {
                    vars.prim[[$eta, i]] = vars.cons[[$eta, i]] / vars.cons[[$rho, i]];
                }
            }
            fn update_cons(vars: &mut Variables<$w, S>) {
                let mut n = narrow::<$w, $e, S>(vars, wide_rows($ad));
                $base::<S>::update_cons(&mut n);
                for (j, &r) in wide_rows($ad).iter().enumerate() {
                    vars.cons.row_mut(r).assign(&n.cons.row(j));
                }
                for i in 0..S {
                    vars.cons[[$eta, i]] = vars.prim[[$eta, i]] * vars.prim[[$rho, i]];
                }
            }
            fn update_flux(vars: &mut Variables<$w, S>) {
                let mut n = narrow::<$w, $e, S>(vars, wide_rows($ad));
                $base::<S>::update_flux(&mut n);
                for (j, &r) in wide_rows($ad).iter().enumerate() {
                    vars.flux.row_mut(r).assign(&n.flux.row(j));
                }
                for i in 0..S {
                    vars.flux[[$eta, i]] = vars.prim[[$eta, i]] * vars.cons[[$xi, i]];
                }
            }
            fn validate(vars: &Variables<$w, S>) -> Result<()> {
                $base::<S>::validate(&narrow::<$w, $e, S>(vars, wide_rows($ad)))
            }
        }
    };
}
wide_physics!(WideAdiabatic, 4, 3, Euler1DAdiabatic, true, 2, 3, 0, 1);
wide_physics!(WideIsothermal, 3, 2, Euler1DIsot, false, 2, 0, 1, usize::MAX);

pub const WIDE_SIZES: [usize; 3] = [8, 17, 68];

/// Builds a simulation of the user-defined physics; `eta` is the passive velocity
pub fn build_wide(cfg: &CorriesConfig, adiabatic: bool, s: usize, data: InitData, eta: &[f64]) -> Result<Box<dyn Sim>> {
    let rows = wide_rows(adiabatic);
    let mut prim = vec![vec![]; rows.len() + 1];
    for (j, &r) in rows.iter().enumerate() {
        prim[r] = data.prim[j].clone();
    }
    prim[wide_eta(adiabatic)] = eta.to_vec();
    let data = InitData { prim, ..data };
    macro_rules! go {
        ($($n:literal),*) => {
            match (adiabatic, s) {
                $((true, $n) => build_impl::<WideAdiabatic<$n>, Flux<4, $n>, Rec<WideAdiabatic<$n>, 4, $n>, 4, $n>(cfg, data),)*
                $((false, $n) => build_impl::<WideIsothermal<$n>, Flux<3, $n>, Rec<WideIsothermal<$n>, 3, $n>, 3, $n>(cfg, data),)*
                (_, n) => panic!("no wide simulation of size {n}"),
            }
        };
    }
    go!(8, 17, 68)
}

// ---------------------------------------------------------------------------------------------------------------------
// user-defined physics: linear systems of any number of equations
// ---------------------------------------------------------------------------------------------------------------------

/// du/dt + A du/dx = 0
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Lin {
    pub a: V2,
    /// the eigenvalues of A in rising order
    pub lam: Vec<f64>,
    /// conservative over primitive variables
    pub q: Vec<f64>,
}
thread_local! {
    static LIN: RefCell<Lin> = RefCell::new(Lin::default());
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Linear<const E: usize, const S: usize>;
impl<const E: usize, const S: usize> Physics<E, S> for Linear<E, S> {
    const NUM_EQ: usize = E;
    const IS_ADIABATIC: bool = false;
    const JRHO: usize = usize::MAX;
    const JXI: usize = usize::MAX;
    const JETA: usize = usize::MAX;
    const JPRESSURE: usize = usize::MAX;
    fn new() -> Self {
        Self
    }
    fn name() -> String {
        "linear".to_string()
    }
    fn update_prim(v: &mut Variables<E, S>) {
        LIN.with(|l| {
            for (j, q) in l.borrow().q.iter().enumerate() {
                for i in 0..S {
                    v.prim[[j, i]] = v.cons[[j, i]] / q;
                }
            }
        })
    }
    fn update_cons(v: &mut Variables<E, S>) {
        LIN.with(|l| {
            for (j, q) in l.borrow().q.iter().enumerate() {
                for i in 0..S {
                    v.cons[[j, i]] = v.prim[[j, i]] * q;
                }
            }
        })
    }
    fn update_eigen_vals(v: &mut Variables<E, S>) {
        LIN.with(|l| {
            for j in 0..E {
                v.eigen_vals.row_mut(j).fill(l.borrow().lam[j]);
            }
        })
    }
    fn update_eigen_vals_min(v: &mut Variables<E, S>) {
        LIN.with(|l| v.eigen_vals.row_mut(0).fill(l.borrow().lam[0]));
    }
    fn update_eigen_vals_max(v: &mut Variables<E, S>) {
        LIN.with(|l| v.eigen_vals.row_mut(E - 1).fill(l.borrow().lam[E - 1]));
    }
    fn update_flux(v: &mut Variables<E, S>) {
        LIN.with(|l| {
            let l = l.borrow();
            for j in 0..E {
                for i in 0..S {
                    v.flux[[j, i]] = (0..E).map(|k| l.a[j][k] * v.cons[[k, i]]).sum();
                }
            }
        })
    }
    fn validate(v: &Variables<E, S>) -> Result<()> {
        if v.cons.iter().any(|x| !x.is_finite()) {
            bail!("not finite")
        }
        Ok(())
    }
}

pub const LINEAR_SIZES: [usize; 4] = [6, 8, 17, 68];

/// Builds a simulation of a linear system of 1, 2 or 5 equations
pub fn build_linear(cfg: &CorriesConfig, lin: &Lin, s: usize, prim: &V2) -> Result<Box<dyn Sim>> {
    let data = InitData { prim: prim.clone(), ..InitData::default() };
    LIN.with(|l| *l.borrow_mut() = lin.clone());
    macro_rules! go {
        ($($e:literal: [$($n:literal),*]);*) => {
            match (lin.lam.len(), s) {
                $($(($e, $n) => build_impl::<Linear<$e, $n>, Flux<$e, $n>, Rec<Linear<$e, $n>, $e, $n>, $e, $n>(cfg, data),)*)*
                (e, n) => panic!("no linear simulation of {e} equations and size {n}"),
            }
        };
    }
    go!(1: [6, 8, 17, 68]; 2: [6, 8, 17, 68]; 5: [6, 8, 17, 68])
}

// ---------------------------------------------------------------------------------------------------------------------
// flux schemes and integrators of the user
// ---------------------------------------------------------------------------------------------------------------------

/// What a flux scheme of the user is given, and its answer
#[derive(Clone, Debug, Default)]
pub struct Seen {
    pub prim: V2,
    pub cons: V2,
    pub c: Vec<f64>,
    pub eig: V2,
    pub rhs: V2,
}
/// What the integrator of the user does
#[derive(Clone, Copy, Debug, Default, Serialize, Deserialize)]
pub struct UserTimeMode {
    /// fraction of the CFL step
    pub part: f64,
    pub midpoint: bool,
    /// the call that fails (counted from 0)
    pub fail_at: Option<usize>,
}
thread_local! {
    static SEEN: RefCell<Vec<Seen>> = RefCell::new(vec![]);
    static USER_TIME: Cell<UserTimeMode> = Cell::new(UserTimeMode::default());
    /// (west, cent, east) when the integrator of the user starts and ends
    static CALLS: RefCell<Vec<(StepRec, [Snap; 3], [Snap; 3])>> = RefCell::new(vec![]);
}
pub fn take_seen() -> Vec<Seen> {
    SEEN.with(|x| std::mem::take(&mut *x.borrow_mut()))
}
pub fn take_calls() -> Vec<(StepRec, [Snap; 3], [Snap; 3])> {
    CALLS.with(|x| std::mem::take(&mut *x.borrow_mut()))
}

fn snap<const E: usize, const S: usize>(v: &Variables<E, S>) -> Snap {
    Snap {
        prim: v2(&v.prim),
        cons: v2(&v.cons),
        c: v.c_sound.to_vec(),
        eig: v2(&v.eigen_vals),
        flux: v2(&v.flux),
        gamma: v.gamma,
    }
}

/// The local Lax-Friedrichs scheme
pub struct Rusanov<const E: usize, const S: usize> {
    dx: f64,
}
impl<const E: usize, const S: usize> NumFlux<E, S> for Rusanov<E, S> {
    fn new(_: &NumFluxConfig, mesh: &Mesh<S>) -> Result<Self> {
        Ok(Self { dx: mesh.dxi })
    }
    fn calc_dflux_dxi<P: Physics<E, S>>(
        &mut self,
        dflux_dxi: &mut Array2<f64>,
        u: &mut State<P, E, S>,
        _: &Mesh<S>,
    ) -> Result<()> {
        u.update_flux();
        let v = &u.cent;
        let mut f = vec![[0.0; E]; S];
        for i in 1..S - 2 {
            let a = |i: usize| v.eigen_vals[[0, i]].abs().max(v.eigen_vals[[E - 1, i]].abs());
            let a = a(i).max(a(i + 1));
            for j in 0..E {
                f[i][j] = 0.5 * (v.flux[[j, i]] + v.flux[[j, i + 1]] - a * (v.cons[[j, i + 1]] - v.cons[[j, i]]));
            }
        }
        for j in 0..E {
            for i in 2..S - 2 {
                dflux_dxi[[j, i]] = (f[i][j] - f[i - 1][j]) / self.dx;
            }
        }
        let seen = Seen {
            prim: v2(&v.prim),
            cons: v2(&v.cons),
            c: v.c_sound.to_vec(),
            eig: v2(&v.eigen_vals),
            rhs: v2(dflux_dxi),
        };
        SEEN.with(|x| x.borrow_mut().push(seen));
        Ok(())
    }
}

/// Forward Euler or midpoint steps
pub struct UserTime<const E: usize, const S: usize> {
    n: usize,
}
impl<P: Physics<E, S> + 'static, const E: usize, const S: usize> TimeSolver<P, E, S> for UserTime<E, S> {
    fn new(_: &CorriesConfig) -> Result<Self> {
        Ok(Self { n: 0 })
    }
    fn next_solution<N: NumFlux<E, S>>(
        &mut self,
        time: &mut TimeStep,
        u: &mut State<P, E, S>,
        rhs: &mut Rhs<N, E, S>,
        mesh: &Mesh<S>,
    ) -> Result<()> {
        let all = |u: &State<P, E, S>| [snap(&u.west), snap(&u.cent), snap(&u.east)];
        let mode = USER_TIME.with(|x| x.get());
        let before = all(u);
        let mut rec = StepRec { t_before: time.t, t_next: time.t_next_output, iter: time.iter, ..Default::default() };
        let n = self.n;
        self.n += 1;
        if mode.fail_at == Some(n) {
            rec.t_after = time.t;
            CALLS.with(|x| x.borrow_mut().push((rec, before.clone(), before)));
            bail!("the user's integrator gives up");
        }
        if n > 5000 {
            bail!("harness: too many steps");
        }
        time.iter += 1;
        time.calc_dt_expl(u, mesh)?;
        time.dt *= mode.part;
        time.cap_dt();
        let old = u.cent.cons.clone();
        rhs.update(u, mesh)?;
        if mode.midpoint {
            u.cent.cons.assign(&(&old - &(&rhs.full_rhs * (0.5 * time.dt))));
            rhs.update(u, mesh)?;
        }
        u.cent.cons.assign(&(&old - &(&rhs.full_rhs * time.dt)));
        u.update_vars_from_cons(&mut rhs.boundary_west, &mut rhs.boundary_east, mesh);
        time.t += time.dt;
        rec.dt = time.dt;
        rec.t_after = time.t;
        rec.ok = true;
        CALLS.with(|x| x.borrow_mut().push((rec, before, all(u))));
        Ok(())
    }
}

pub const USER_SIZES: [usize; 2] = [8, 17];

/// Builds a simulation with the flux scheme of the user (`time`: None) or with his integrator
pub fn build_user(
    cfg: &CorriesConfig,
    adiabatic: bool,
    s: usize,
    data: InitData,
    time: Option<UserTimeMode>,
) -> Result<Box<dyn Sim>> {
    USER_TIME.with(|x| x.set(time.unwrap_or_default()));
    take_seen();
    take_calls();
    macro_rules! go {
        ($($n:literal),*) => {
            match (adiabatic, s, time.is_some()) {
                $((true, $n, false) => build_impl::<Euler1DAdiabatic<$n>, Rusanov<3, $n>, RungeKuttaFehlberg<Euler1DAdiabatic<$n>, 3, $n>, 3, $n>(cfg, data),)*
                $((false, $n, false) => build_impl::<Euler1DIsot<$n>, Rusanov<2, $n>, RungeKuttaFehlberg<Euler1DIsot<$n>, 2, $n>, 2, $n>(cfg, data),)*
                $((true, $n, true) => build_impl::<Euler1DAdiabatic<$n>, Flux<3, $n>, UserTime<3, $n>, 3, $n>(cfg, data),)*
                $((false, $n, true) => build_impl::<Euler1DIsot<$n>, Flux<2, $n>, UserTime<2, $n>, 2, $n>(cfg, data),)*
                (_, n, _) => panic!("no user simulation of size {n}"),
            }
        };
    }
    go!(8, 17)
}
