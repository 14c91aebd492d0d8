//! Convergence towards exact solutions

use crate::engine::*;
use crate::exact::{Gas, Riemann, SimpleWave, W};
use crate::gen::*;
use crate::need;
use crate::p_time::excused;
use crate::sim::{self, Sim, D};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// Sub-samples per cell for averages of exact solutions
const SUB: usize = 16;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Tube {
    ad: bool,
    gamma: f64,
    fx: Fx,
    rk: Rk,
    cfl: f64,
    l: W,
    r: W,
    xi_in: f64,
    width: f64,
    /// position of the diaphragm, 0..1
    pos: f64,
}

impl Tube {
    fn gas(&self) -> Gas {
        if self.ad {
            Gas::Adiabatic(self.gamma)
        } else {
            Gas::Isothermal((self.l[2] / self.l[0]).sqrt())
        }
    }
}

/// The computed interior state
fn solve(scn: &Scn) -> Res<Option<Vec<W>>> {
    sim::set_budget(2_000_000);
    let mut s = scn.build()?;
    if s.run().is_err() {
        return Ok(None);
    }
    let v = s.vars(D::Cent);
    Ok(Some(
        (2..scn.s - 2)
            .map(|i| [v.prim[0][i], v.prim[1][i], if scn.ad { v.prim[2][i] } else { v.prim[0][i] * v.c[i] * v.c[i] }])
            .collect(),
    ))
}

/// A scenario of `n` cells with the given cell averages of the state at t = 0
#[allow(clippy::too_many_arguments)]
fn scenario(
    ad: bool,
    gamma: f64,
    fx: Fx,
    rk: Rk,
    cfl: f64,
    n: usize,
    (xi_in, width): (f64, f64),
    t_end: f64,
    state: &dyn Fn(f64) -> W,
) -> Scn {
    let dx = width / n as f64;
    let s = n + 4;
    let cells: Vec<W> = (0..s)
        .map(|i| {
            let w = average(xi_in + (i as f64 - 2.0) * dx, dx, state);
            if ad {
                w
            } else {
                [w[0], w[1], (w[2] / w[0]).sqrt()]
            }
        })
        .collect();
    Scn {
        ad,
        gamma,
        s,
        fx,
        rk,
        asc: None,
        xi_in,
        xi_out: xi_in + width,
        bcw: None,
        bce: None,
        cfl,
        dt_min: t_end * 1e-9,
        dt_max: f64::MAX,
        t0: 0.0,
        t_end,
        n_out: 1,
        iter_max: 1_000_000,
        cells,
    }
}

fn average(x: f64, dx: f64, f: &dyn Fn(f64) -> W) -> W {
    let mut a = [0.0; 3];
    for k in 0..SUB {
        let w = f(x + dx * (k as f64 + 0.5) / SUB as f64);
        for j in 0..3 {
            a[j] += w[j] / SUB as f64;
        }
    }
    a
}

/// L1 errors of density, velocity and pressure relative to the width of the mesh
fn l1(got: &[W], (xi_in, width): (f64, f64), f: &dyn Fn(f64) -> W) -> W {
    let n = got.len();
    let dx = width / n as f64;
    let mut e = [0.0; 3];
    for (i, g) in got.iter().enumerate() {
        let w = average(xi_in + i as f64 * dx, dx, f);
        for j in 0..3 {
            e[j] += (g[j] - w[j]).abs() / n as f64;
        }
    }
    e
}

fn rk_for(fx: Fx, k: usize) -> Rk {
    // explicit Euler does not keep second order reconstructions stable
    let all = if fx.is_hll() { &ALL_RK[..] } else { &ALL_RK[1..] };
    all[k % all.len()]
}

/// orders of magnitude of a physical scale
fn orders() -> impl Strategy<Value = f64> {
    prop_oneof![2 => -2.0f64..2.0, 1 => -8.0f64..8.0]
}

fn tube() -> impl Strategy<Value = Tube> {
    (
        (any::<bool>(), prop_oneof![Just(1.4), Just(5.0 / 3.0), 1.1f64..1.9], stable_fx(), 0usize..100, 0.1f64..0.45),
        ([-1.0f64..1.0, -1.0f64..1.0, -1.0f64..1.0], [-1.0f64..1.0, -1.0f64..1.0, -1.0f64..1.0]),
        (orders(), orders(), orders()),
        (0.35f64..0.65, 0.011f64..3.0, any::<bool>()),
    )
        .prop_map(|((ad, gamma, fx, k, cfl), (l, r), (d0, c0, w0), (pos, xi, flip))| {
            let (d, c, width) = (10f64.powf(d0), 10f64.powf(c0), 10f64.powf(w0));
            let st = |m: [f64; 3]| {
                let rho = d * (1.2 * m[0]).exp();
                let p = if ad { d * c * c / gamma * (1.6 * m[2]).exp() } else { rho * c * c };
                [rho, 1.2 * c * m[1], p]
            };
            let (l, r) = (st(l), st(r));
            Tube {
                ad,
                gamma,
                fx,
                rk: rk_for(fx, k),
                cfl,
                l,
                r,
                xi_in: if flip { -(1.0 + xi) } else { xi } * width,
                width,
                pos,
            }
        })
}

fn tube_scn(c: &Tube, rp: &Riemann, n: usize) -> Scn {
    let x0 = c.xi_in + c.pos * c.width;
    let t = 0.3 * c.width / rp.speed();
    scenario(c.ad, c.gamma, c.fx, c.rk, c.cfl, n, (c.xi_in, c.width), t, &|x| if x < x0 { c.l } else { c.r })
}

/// A run without success: are the schemes to blame, according to the reference?
fn failed_run(scn: &Scn) -> Res {
    let mut s = scn.build()?;
    sim::record(2);
    let r = s.run();
    let rec = sim::take_record();
    sim::record(0);
    match r {
        Ok(()) => fail("a run fails once and succeeds once"),
        Err(_) if excused(scn, &rec) => discard("the schemes run into an unphysical state"),
        Err(e) => fail(format!("the run with {} cells fails without a reason: {}", scn.s - 4, sim::errstr(&e))),
    }
}

fn tube_errors(c: &Tube, rp: &Riemann, n: usize) -> Res<Option<[f64; 3]>> {
    let scn = tube_scn(c, rp, n);
    let t = scn.t_end;
    let x0 = c.xi_in + c.pos * c.width;
    let Some(got) = solve(&scn)? else { return Ok(None) };
    let e = l1(&got, (c.xi_in, c.width), &|x| rp.at((x - x0) / t));
    // relative to the spread of the solution
    let star = [[rp.rho_l, rp.u, rp.p], [rp.rho_r, rp.u, rp.p]];
    let mut out = [0.0; 3];
    for j in 0..3 {
        let all = [c.l[j], c.r[j], star[0][j], star[1][j]];
        let hi = all.iter().fold(f64::MIN, |a, b| a.max(*b));
        let lo = all.iter().fold(f64::MAX, |a, b| a.min(*b));
        let unit = if j == 1 { c.gas().c(&c.l).min(c.gas().c(&c.r)) } else { hi };
        out[j] = e[j] / (hi - lo + 0.05 * unit);
    }
    Ok(Some(out))
}

pub fn c26() -> Property {
    let oracle = |c: &Tube, cx: &mut Cx| -> Res {
        let rp = Riemann::new(c.gas(), c.l, c.r);
        let small = c.l[2].min(c.r[2]);
        if rp.p < 0.05 * small || rp.rho_l < 0.05 * c.l[0] || rp.rho_r < 0.05 * c.r[0] {
            return discard("near vacuum");
        }
        let mut errs = vec![];
        for n in [32, 64, 128, 256] {
            match tube_errors(c, &rp, n)? {
                Some(e) => errs.push(e),
                None => return failed_run(&tube_scn(c, &rp, n)),
            }
        }
        let sum: Vec<f64> = errs.iter().map(|e| e.iter().sum()).collect();
        // about 1.3 times what is seen in 10000 problems
        let (most, ratio) = match c.fx {
            Fx::Hll => (0.11, 0.68),
            Fx::MinMod => (0.045, 0.58),
            Fx::Monocent(_) => (0.035, 0.65),
            Fx::Superbee => (0.07, 0.65),
            _ => (0.03, 0.6),
        };
        need!(sum[3] <= most, "{}: relative L1 errors {:?} with 256 cells, their sum exceeds {most}", c.fx.name(), errs[3]);
        // slow waves make errors depend on their position within a cell
        need!(
            sum[1] < 4e-3 || sum[3] <= ratio * sum[1].max(0.75 * sum[0]),
            "{}: the error does not fall as it has to: {:e} with 32, {:e} with 64, {:e} with 128, {:e} with 256 cells",
            c.fx.name(),
            sum[0],
            sum[1],
            sum[2],
            sum[3]
        );
        let shocks = usize::from(rp.p > c.l[2]) + usize::from(rp.p > c.r[2]);
        cx.label(["two rarefactions", "shock and rarefaction", "two shocks"][shocks]);
        cx.label(if c.ad { "adiabatic" } else { "isothermal" });
        cx.label(c.fx.name());
        cx.nontrivial();
        Ok(())
    };
    Property {
        id: "C26",
        rule: "Riemann problems whose solution has no near-vacuum",
        parts: vec![part("shock-tubes", 400, 6_000, tube, oracle)],
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Smooth {
    ad: bool,
    /// transport of a density profile (adiabatic only), or a simple wave
    transport: bool,
    gamma: f64,
    fx: Fx,
    rk: Rk,
    cfl: f64,
    w0: W,
    amp: f64,
    dir: f64,
    xi_in: f64,
    width: f64,
    /// half width of the bump relative to the domain
    half: f64,
    /// how much of the transported bump leaves the domain
    exit: f64,
}

fn smooth() -> impl Strategy<Value = Smooth> {
    (
        (any::<bool>(), any::<bool>(), prop_oneof![Just(1.4), Just(5.0 / 3.0), 1.1f64..1.9]),
        (fx(), 0usize..100, 0.1f64..0.4),
        (orders(), orders(), orders(), -1.2f64..1.2),
        (0.2f64..0.5, any::<bool>(), any::<bool>(), 0.011f64..3.0, any::<bool>(), 0.22f64..0.3),
        prop_oneof![1 => Just(0.0), 1 => 0.1f64..0.9],
    )
        .prop_map(|((ad, tr, gamma), (fx, k, cfl), (d0, c0, w0, m), (amp, neg, dir, xi, flip, half), exit)| {
            let (d, c, width) = (10f64.powf(d0), 10f64.powf(c0), 10f64.powf(w0));
            let p = if ad { d * c * c / gamma } else { d * c * c };
            // slow contacts are smeared out before they arrive
            let least = if exit > 0.0 { 0.7 } else { 0.2 };
            let m = if tr && ad && m.abs() < least { m + (least + 0.2) * m.signum() } else { m };
            Smooth {
                ad,
                transport: tr && ad,
                gamma,
                fx,
                rk: rk_for(fx, k.max(1)),
                cfl,
                w0: [d, m * c, p],
                amp: if neg { -amp } else { amp },
                dir: if dir { 1.0 } else { -1.0 },
                xi_in: if flip { -(1.0 + xi) } else { xi } * width,
                width,
                half,
                exit,
            }
        })
}

/// L1 errors at the resolutions
fn smooth_errors(c: &Smooth, sizes: &[usize]) -> Res<Option<(Vec<f64>, f64)>> {
    let gas = if c.ad { Gas::Adiabatic(c.gamma) } else { Gas::Isothermal((c.w0[2] / c.w0[0]).sqrt()) };
    let cs = gas.c(&c.w0);
    let mid = c.xi_in + 0.5 * c.width;
    let h = c.half * c.width;
    let bump = move |x: f64| {
        let y = (x - mid) / h;
        if y.abs() < 1.0 {
            (0.5 * std::f64::consts::PI * y).cos().powi(4)
        } else {
            0.0
        }
    };
    let rho = move |x: f64| c.w0[0] * (1.0 + c.amp * bump(x));
    let wave = SimpleWave { gas, w0: c.w0, dir: c.dir, rho: &rho };
    // how far the bump may move
    let room = if c.transport && c.exit > 0.0 {
        (0.5 - c.half + 2.0 * c.half * c.exit) * c.width
    } else {
        (0.5 - c.half) * c.width * 0.9
    };
    let fastest = (0..=200).fold(0.0f64, |a, k| {
        let x = mid + h * (k as f64 / 100.0 - 1.0);
        a.max(if c.transport { c.w0[1].abs() } else { wave.state(rho(x)).1.abs() })
    });
    let mut t = room / fastest.max(if c.transport && c.exit > 0.0 { 0.0 } else { 0.5 * cs });
    if !c.transport {
        // well before the wave breaks: d(speed)/dx t > -1
        let dx = h / 1000.0;
        let steepest = (-1000..1000).fold(0.0f64, |a, k| {
            let x = mid + k as f64 * dx;
            a.max((wave.state(rho(x)).1 - wave.state(rho(x + dx)).1) / dx)
        });
        t = t.min(0.35 / steepest);
    }
    let exact = |x: f64| -> W {
        if c.transport {
            [rho(x - c.w0[1] * t), c.w0[1], c.w0[2]]
        } else {
            wave.at(x, t, (c.xi_in - c.width, c.xi_in + 2.0 * c.width))
        }
    };
    let initial = |x: f64| -> W {
        if c.transport {
            [rho(x), c.w0[1], c.w0[2]]
        } else {
            wave.state(rho(x)).0
        }
    };
    let mut out = vec![];
    let mut edge = 0.0f64;
    for &n in sizes {
        let scn = scenario(c.ad, c.gamma, c.fx, c.rk, c.cfl, n, (c.xi_in, c.width), t, &initial);
        let Some(got) = solve(&scn)? else { return Ok(None) };
        let e = l1(&got, (c.xi_in, c.width), &exact);
        let rel = [e[0] / c.w0[0], e[1] / cs, e[2] / c.w0[2]].map(|x| x / c.amp.abs());
        out.push(rel[0].max(rel[1]).max(rel[2]));
        // density next to the edges
        edge = 0.0;
        let dx = c.width / n as f64;
        for i in [0, 1, 2, n - 3, n - 2, n - 1] {
            let want = average(c.xi_in + i as f64 * dx, dx, &exact)[0];
            edge = edge.max((got[i][0] - want).abs() / (c.w0[0] * c.amp.abs()));
        }
    }
    Ok(Some((out, edge)))
}

pub fn c27() -> Property {
    let oracle = |c: &Smooth, cx: &mut Cx| -> Res {
        let Some((e, edge)) = smooth_errors(c, &[32, 64, 128, 256])? else { return fail("the run fails") };
        // orders from the finest two meshes and over two refinements, and the error with 256 cells
        let (r23, r13, most) = match c.fx {
            Fx::Hll => (1.55, 2.35, 0.045),
            Fx::Superbee => (1.6, 2.75, 0.025),
            Fx::MinMod => (2.5, 7.3, 0.0035),
            Fx::Monocent(_) => (3.0, 8.5, 0.0028),
            Fx::None => (2.9, 11.0, 0.0008),
            Fx::VanLeer => (3.1, 9.0, 0.0016),
        };
        // longer distances, and a boundary condition of first order
        let (r23, r13, most) = match c.fx {
            _ if c.exit == 0.0 || !c.transport => (r23, r13, most),
            Fx::Hll => (1.4, 1.9, 0.08),
            Fx::Superbee => (1.45, 2.3, 0.05),
            _ => (2.1, 5.5, 2.2 * most),
        };
        need!(
            e[2] >= r23 * e[3] && e[1] >= r13 * e[3],
            "{}: errors {:e}, {:e}, {:e}, {:e} with 32, 64, 128, 256 cells",
            c.fx.name(),
            e[0],
            e[1],
            e[2],
            e[3]
        );
        need!(e[3] <= most, "{}: relative error {:e} with 256 cells", c.fx.name(), e[3]);
let out = c.transport && c.exit > 0.0;
        let edge_most = match (c.fx, out) {
            (Fx::Hll, true) => 0.35,
            (Fx::Superbee, true) => 0.15,
            (Fx::MinMod, true) => 0.06,
            (Fx::None, true) => 0.012,
            (_, true) => 0.04,
            (Fx::Hll, false) => 0.01,
            (Fx::Superbee, false) => 0.002,
            (_, false) => 2e-4,
        };
        need!(
            edge <= edge_most,
            "{}: relative error {edge:e} of the density at the edges of 256 cells exceeds {edge_most}",
            c.fx.name()
        );
        let kind = match (c.transport, c.exit > 0.0) {
            (false, _) => "simple wave",
            (true, false) => "transport",
            (true, true) => "transport out of the domain",
        };
        cx.label(format!("{} {kind}", c.fx.name()));
        cx.nontrivial();
        Ok(())
    };
    Property {
        id: "C27",
        rule: "smooth profiles that move through the mesh",
        parts: vec![part("smooth-flows", 300, 5_000, smooth, oracle)],
    }
}
