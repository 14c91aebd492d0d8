//! Time integration: Runge-Kutta steps, step widths, step control, runs, failures, and the reference solver

use crate::engine::*;
use crate::gen::*;
use crate::need;
use crate::p_flux::{run_rec, undecided};
use crate::refsol::{self, Problem};
use crate::sim::{self, same_bits, Ode, Op, Sim, Snap, StepRec, D, V2};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// The step width without step control: min(CFL, dt_max, time left), and the CFL step
pub fn cap_of(x: &Scn, p: &Problem, s: &StepRec) -> (f64, f64) {
    let c = refsol::sound(&s.prim_before, x.gamma, &p.c_iso);
    let mut a = 0.0f64;
    for i in 0..x.s {
        a = a.max(s.prim_before[1][i].abs() + c[i]);
    }
    let cfl = x.cfl * p.mesh.dx / a;
    let left = s.t_next.min(x.t_end) - s.t_before;
    (cfl.min(x.dt_max).min(left), cfl)
}

fn phys(prim: &V2) -> bool {
    prim.iter().all(|r| r.iter().all(|v| v.is_finite()))
        && prim[0].iter().all(|v| *v > 0.0)
        && (prim.len() < 3 || prim[2].iter().all(|v| *v > 0.0))
}

/// Whether the last, failed, step had to fail: the state or a stage becomes unphysical, or dt falls below dt_min
pub fn excused(x: &Scn, rec: &[StepRec]) -> bool {
    let Some(s) = rec.last() else { return false };
    let p = Problem::new(x);
    let (cap, cfl) = cap_of(x, &p, s);
    if !phys(&s.prim_before) || undecided(x, &s.prim_before) || cfl < x.dt_min * (1.0 + 1e-9) {
        return true;
    }
    let (h, _, ok) = p.step(x.rk, &s.cons_before, cap);
    let (prim, cons, _) = p.complete(&h);
    !ok || !phys(&prim) || x.ad && (0..x.s).any(|i| prim[2][i] <= 1e-9 * (x.gamma - 1.0) * cons[2][i])
}

// =====================================================================================================================
// C12 Runge-Kutta
// =====================================================================================================================

#[derive(Clone, Debug, Serialize, Deserialize)]
struct OdeCase {
    x: Scn,
    ode: Ode,
    steps: usize,
}

fn ode_case() -> impl Strategy<Value = OdeCase> {
    let r = || prop_oneof![1 => Just(0.0), 4 => -0.25f64..0.25];
    (
        scn(Opt {
            sizes: SMALL,
            amp: 0.5,
            mach: 1.0,
            ..Opt::default()
        }),
        proptest::collection::vec((r(), r()), 3),
        r(),
        r(),
        1usize..4,
        prop_oneof![3 => logu(0.01, 1.0), 1 => Just(0.0)],
        prop_oneof![2 => Just(1.0), 1 => logu(1e-15, 1e15)],
    )
        .prop_map(|(mut x, k, couple, nb, steps, dt, unit)| {
            let p = Problem::new(&x);
            let c: Vec<f64> = x.cells.iter().map(|q| x.c_of(q)).collect();
            let scale = p.scales(&x.prim(), &c);
            // rates are of order 1 per unit of time
            let dt = if dt == 0.0 { 0.5 } else { dt } * unit;
            x.dt_max = dt;
            x.cfl = 1e6 * dt / (x.dx() / x.speed());
            x.dt_min = 1e-9 * dt;
            x.t0 = 0.0;
            x.t_end = 1e6 * dt;
            x.n_out = 0;
            x.asc = None;
            let e = x.e();
            OdeCase {
                ode: Ode {
                    lin: k[..e].iter().map(|q| q.0 / unit).collect(),
                    quad: k[..e].iter().map(|q| q.1 / unit).collect(),
                    couple: couple / unit,
                    nb: nb / unit,
                    scale,
                },
                x,
                steps,
            }
        })
}

fn ode_rhs(ode: &Ode, cons: &V2) -> V2 {
    let (e, s) = (cons.len(), cons[0].len());
    let mut r = vec![vec![0.0; s]; e];
    for j in 0..e {
        for i in 2..s - 2 {
            r[j][i] = ode.rhs(&|j, i| cons[j][i], e, j, i);
        }
    }
    r
}

pub fn c12() -> Property {
    let oracle = |c: &OdeCase, cx: &mut Cx| -> Res {
        let x = &c.x;
        let p = Problem::new(x);
        let mut sim = x.build()?;
        sim.ts().t_next_output = f64::MAX;
        sim::set_ode(c.ode.clone());
        let mut t = 0.0;
        for n in 0..c.steps {
            let before = sim.cons();
            if undecided(x, &sim.prim()) {
                return discard("outflow at velocity 0");
            }
            let mut ok = true;
            let mut slopes = vec![0.0f64; x.e()];
            let dt = x.dt_max;
            let (want, _) = refsol::rk_step(x.rk, &before, dt, &mut |u: &V2| {
                let (prim, cons, _) = p.complete(u);
                ok &= phys(&prim) && !undecided(x, &prim);
                let r = ode_rhs(&c.ode, &cons);
                for j in 0..x.e() {
                    slopes[j] = r[j].iter().fold(slopes[j], |a, v| a.max(v.abs()));
                }
                r
            });
            ok &= phys(&p.complete(&want).0);
            if !ok {
                return discard("unphysical stage");
            }
            if let Err(e) = sim.step() {
                return fail(format!("step {n} fails: {}", sim::errstr(&e)));
            }
            t += dt;
            need!((sim.ts().dt - dt).abs() <= 1e-14 * dt, "dt = {:e}, expected dt_max = {dt:e}", sim.ts().dt);
            need!((sim.ts().t - t).abs() <= 1e-13 * t, "t = {:e}, expected {t:e}", sim.ts().t);
            let got = sim.cons();
            let rel = if x.rk == Rk::SSPRK5 { 1e-9 } else { 1e-12 };
            for j in 0..x.e() {
                for i in 2..x.s - 2 {
                    let tol = rel * (before[j][i].abs() + want[j][i].abs() + dt * slopes[j]);
                    need!(
                        (got[j][i] - want[j][i]).abs() <= tol,
                        "step {n}: conservative variable {j} in cell {i} is {:e}, the {:?} tableau gives {:e} (was \
                         {:e}, tolerance {tol:e})",
                        got[j][i],
                        x.rk,
                        want[j][i],
                        before[j][i]
                    );
                }
            }
        }
        cx.label(format!("{:?}", x.rk));
        cx.label(format!("{} steps", c.steps));
        cx.nontrivial();
        Ok(())
    };
    // du/dt = -(l u + q u^2) has a closed solution
    let ostrat = || {
        (ode_case(), logu(0.3, 2.0), -0.4f64..0.4, any::<bool>()).prop_map(|(mut c, l, q, grow)| {
            let e = c.x.e();
            c.ode.couple = 0.0;
            c.ode.nb = 0.0;
            let rate = if grow { -0.7 * l } else { l };
            c.ode.lin = vec![rate; e];
            c.ode.quad = vec![q * l; e];
            // positive everywhere, the same state in all cells
            let c0 = [c.x.cells[0][0], 0.6 * c.x.c_of(&c.x.cells[0]), c.x.cells[0][2]];
            c.x.cells = vec![c0; c.x.s];
            c.x.bcw = None;
            c.x.bce = None;
            // rounding shall not matter for any of the modes
            c
        })
    };
    let ooracle = |c: &OdeCase, cx: &mut Cx| -> Res {
        let x = &c.x;
        if x.rk == Rk::SSPRK5 {
            return discard("coefficients with five digits");
        }
        let order = refsol::order(x.rk);
        let tt = 1.0;
        let exact = |u0: f64, j: usize| {
            let (l, q) = (c.ode.lin[j], c.ode.quad[j]);
            let y = u0 / c.ode.scale[j];
            let ex = (-l * tt).exp();
            c.ode.scale[j] * (l * y * ex / (l + q * y * (1.0 - ex)))
        };
        let mut errs: Vec<f64> = vec![];
        let base = if order >= 4.0 { 4 } else { 10 };
        for k in 0..4 {
            let n = base << k;
            let mut y = x.clone();
            y.dt_max = tt / n as f64;
            y.t_end = 1e6;
            y.cfl = 1e6 * y.dt_max / (x.dx() / x.speed());
            y.dt_min = 1e-9 * y.dt_max;
            let mut sim = y.build()?;
            sim.ts().t_next_output = f64::MAX;
            sim::set_ode(c.ode.clone());
            let u0 = sim.cons();
            for _ in 0..n {
                if sim.step().is_err() {
                    return discard("step fails");
                }
            }
            let u = sim.cons();
            errs.push(
                (0..x.e())
                    .map(|j| ((u[j][2] - exact(u0[j][2], j)) / c.ode.scale[j]).abs())
                    .fold(0.0, f64::max),
            );
        }
        if errs[3] < 1e-12 || errs[0] > 0.1 {
            return discard("errors too small or too large to measure an order");
        }
        let orders: Vec<f64> = errs.windows(2).map(|w| (w[0] / w[1]).log2()).collect();
        let (lo, hi) = orders.iter().fold((f64::MAX, f64::MIN), |(a, b), x| (a.min(*x), b.max(*x)));
        if hi - lo > 0.4 {
            return discard("no asymptotic behaviour (leading terms cancel)");
        }
        need!(
            hi > order - 0.5,
            "{:?} converges with the orders {orders:.2?} in time (errors {errs:?})",
            x.rk
        );
        cx.label(format!("{:?}", x.rk));
        cx.nontrivial();
        Ok(())
    };
    Property {
        id: "C12",
        rule: "at least one step of a non-linear system of equations compared with the tableau, or an order measured",
        parts: vec![
            part("tableau", 80_000, 1_600_000, ode_case, oracle),
            part("order", 6_000, 120_000, ostrat, ooracle),
        ],
    }
}

// =====================================================================================================================
// C13 time
// =====================================================================================================================

fn run_opt() -> Opt {
    Opt {
        amp: 1.0,
        mach: 1.5,
        stable: true,
        steps: 25.0,
        long: 400.0,
        sizes: SMALL,
        ..Opt::default()
    }
}

pub fn c13() -> Property {
    let strat = || {
        (
            scn(Opt { asc: true, ..run_opt() }),
            prop_oneof![3 => Just(f64::INFINITY), 2 => 0.05f64..1.5],
            logu(1e-9, 1e-1),
            prop_oneof![2 => 0usize..5, 1 => 5usize..40],
            prop_oneof![3 => Just(-1.0), 1 => Just(0.0), 2 => 0.0f64..100.0, 1 => logu(100.0, 1e4)],
            prop_oneof![4 => Just(0usize), 1 => 1usize..40],
        )
            .prop_map(|(mut x, lim, dm, n_out, t0, imax)| {
                let dt = x.cfl * x.dx() / x.speed();
                let dur = x.t_end - x.t0;
                if lim.is_finite() {
                    x.dt_max = lim * dt;
                }
                x.dt_min = dm * dt.min(x.dt_max);
                x.n_out = n_out;
                if n_out > 0 {
                    x.dt_min = x.dt_min.min(0.1 * dur / n_out as f64);
                }
                if t0 >= 0.0 {
                    x.t0 = t0 * dur;
                    x.t_end = x.t0 + dur;
                    x.dt_min = x.dt_min.max(1e-12 * x.t_end);
                }
                if x.asc.is_some() {
                    x.dt_min *= 1e-3;
                    x.iter_max = 500;
                }
                if imax > 0 {
                    x.iter_max = imax;
                }
                x
            })
    };
    let oracle = |x: &Scn, cx: &mut Cx| -> Res {
        let (r, rec, mut sim) = run_rec(x, 2)?;
        let dur = x.t_end - x.t0;
        let eps = 4.0 * f64::EPSILON * x.t_end;
        let mut t = x.t0;
        let mut sum = x.t0;
        for (k, s) in rec.iter().enumerate() {
            need!(s.t_before == t, "step {k} starts at {:e}, the previous one ended at {t:e}", s.t_before);
            need!(s.iter == k + 1, "step {k} has iteration number {}", s.iter);
            if !s.ok {
                need!(k + 1 == rec.len(), "the run goes on after a failed step");
                break;
            }
            need!(s.dt > 0.0, "step {k}: dt = {:e}", s.dt);
            need!(s.t_after > s.t_before, "step {k}: time does not advance from {:e}", s.t_before);
            need!(
                (s.t_after - s.t_before - s.dt).abs() <= eps,
                "step {k}: time advances from {:e} to {:e} with dt = {:e}",
                s.t_before,
                s.t_after,
                s.dt
            );
            need!(s.t_after <= x.t_end + eps, "step {k} passes t_end: {:e} > {:e}", s.t_after, x.t_end);
            for n in 1..=x.n_out {
                let at = x.t0 + n as f64 * dur / x.n_out as f64;
                need!(
                    !(s.t_before < at - x.dt_min - eps * (2 + n) as f64 && s.t_after > at + eps * (2 + n) as f64),
                    "step {k} from {:e} to {:e} passes the output time {at:e}",
                    s.t_before,
                    s.t_after
                );
            }
            t = s.t_after;
            sum += s.dt;
        }
        need!(
            (t - sum).abs() <= eps * (1.0 + rec.len() as f64),
            "time is {t:e}, but the step widths sum up to {sum:e}"
        );
        need!(sim.ts().t == t, "time changed without a step");
        match &r {
            Ok(()) => {
                need!(
                    (t - x.t_end).abs() <= x.dt_min + eps,
                    "the run ended at {t:e} instead of {:e}",
                    x.t_end
                );
                for n in 0..=x.n_out {
                    if x.n_out == 0 {
                        break;
                    }
                    let at = x.t0 + n as f64 * dur / x.n_out as f64;
                    let hit = std::iter::once(x.t0).chain(rec.iter().map(|s| s.t_after));
                    need!(
                        hit.into_iter().any(|q| (q - at).abs() <= x.dt_min + eps * (2 + n) as f64),
                        "no step ends at the output time {at:e}"
                    );
                }
                need!(rec.len() < x.iter_max, "{} steps taken with iter_max = {}", rec.len(), x.iter_max);
                // once more
                let before = sim.vars(D::Cent);
                sim::record(1);
                if let Err(e) = sim.run() {
                    return fail(format!("running a finished simulation again fails: {}", sim::errstr(&e)));
                }
                need!(sim::take_record().is_empty(), "running a finished simulation again makes steps");
                need!(sim.ts().t == t, "running a finished simulation again changes the time");
                if let Some(f) = sim.vars(D::Cent).diff(&before) {
                    return fail(format!("running a finished simulation again changes {f}"));
                }
                cx.label("success");
            },
            Err(e) => {
                if rec.len() >= x.iter_max {
                    cx.label("iter_max reached");
                } else if x.asc.is_some() {
                    return discard("step control fails");
                } else if excused(x, &rec) {
                    return discard("the solution becomes unphysical");
                } else {
                    return fail(format!("the run fails after {} steps without a reason: {e}", rec.len()));
                }
            },
        }
        cx.label(match x.n_out {
            0 => "no outputs",
            1..=4 => "few outputs",
            _ => "many outputs",
        });
        if rec.len() > 1 {
            cx.nontrivial();
        }
        Ok(())
    };
    Property {
        id: "C13",
        rule: "runs of more than one step, every step recorded",
        parts: vec![part("runs", 10_000, 300_000, strat, oracle)],
    }
}

// =====================================================================================================================
// C14 step width
// =====================================================================================================================

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BadStep {
    x: Scn,
    kind: u8,
    good: usize,
}

fn full(sim: &dyn Sim) -> Vec<Snap> {
    vec![sim.vars(D::Cent)]
}

pub fn c14() -> Property {
    let strat = || {
        (
            scn(Opt { amp: 1.5, ..run_opt() }),
            prop_oneof![2 => Just(f64::INFINITY), 1 => 0.2f64..3.0],
        )
            .prop_map(|(mut x, lim)| {
                if lim.is_finite() {
                    x.dt_max = lim * x.cfl * x.dx() / x.speed();
                }
                x.iter_max = if x.s <= 9 { 1500 } else { 300 };
                x
            })
    };
    let oracle = |x: &Scn, cx: &mut Cx| -> Res {
        let (_, rec, _) = run_rec(x, 2)?;
        let p = Problem::new(x);
        let mut kinds = [0; 3];
        for (k, s) in rec.iter().enumerate() {
            if !s.ok {
                need!(
                    s.iter >= x.iter_max || excused(x, &rec),
                    "step {k} fails without a reason (CFL step {:e}, dt_min {:e})",
                    cap_of(x, &p, s).1,
                    x.dt_min
                );
                break;
            }
            let (cap, cfl) = cap_of(x, &p, s);
            let tol = 1e-12 * cfl + 2.0 * f64::EPSILON * s.t_after;
            need!(
                (s.dt - cap).abs() <= tol,
                "step {k}: dt = {:e}, expected {cap:e} (CFL {cfl:e}, dt_max {:e}, until next output {:e})",
                s.dt,
                x.dt_max,
                s.t_next.min(x.t_end) - s.t_before
            );
            kinds[if cap == cfl {
                0
            } else if cap == x.dt_max {
                1
            } else {
                2
            }] += 1;
        }
        for (n, l) in kinds.iter().zip(["CFL", "dt_max", "output"]) {
            if *n > 0 {
                cx.label(l);
            }
        }
        if kinds[0] > 0 {
            cx.nontrivial();
        }
        Ok(())
    };
    // single CFL steps of arbitrary states
    let sstrat = || {
        (scn(Opt { amp: 4.0, mach: 20.0, ..Opt::default() }), logu(1e-3, 1e3)).prop_map(|(mut x, c)| {
            x.cfl = c;
            x
        })
    };
    let soracle = |x: &Scn, cx: &mut Cx| -> Res {
        let sim = x.build()?;
        let prim = sim.prim();
        let p = Problem::new(x);
        let c = refsol::sound(&prim, x.gamma, &p.c_iso);
        let a = (0..x.s).fold(0.0f64, |m, i| m.max(prim[1][i].abs() + c[i]));
        let want = x.cfl * p.mesh.dx / a;
        match sim.cfl(x.cfl) {
            Ok(dt) => need!((dt - want).abs() <= 1e-12 * want, "dt_cfl = {dt:e}, expected {want:e}"),
            Err(e) => return fail(format!("CFL step fails: {}", sim::errstr(&e))),
        }
        cx.nontrivial();
        Ok(())
    };
    let bstrat = || {
        (scn(run_opt()), 0u8..6, 0usize..4).prop_map(|(x, kind, good)| BadStep { x, kind, good })
    };
    let boracle = |c: &BadStep, cx: &mut Cx| -> Res {
        let mut x = c.x.clone();
        x.t_end = x.t0 + 1e3 * (x.t_end - x.t0);
        let mut sim = x.build()?;
        sim.ts().t_next_output = f64::MAX;
        for _ in 0..c.good {
            if sim.step().is_err() {
                return discard("step fails");
            }
        }
        let p = Problem::new(&x);
        let prim = sim.prim();
        let cs = refsol::sound(&prim, x.gamma, &p.c_iso);
        let a = (0..x.s).fold(0.0f64, |m, i| m.max(prim[1][i].abs() + cs[i]));
        let cfl = x.cfl * p.mesh.dx / a;
        let (what, expect_err) = match c.kind {
            0 => {
                sim.ts().dt_min = cfl * 1.001;
                ("dt_min above the CFL step", true)
            },
            1 => {
                sim.ts().dt_min = cfl * 0.999;
                ("dt_min below the CFL step", false)
            },
            2 => {
                // everything at rest, without waves
                if x.ad {
                    return discard("needs isothermal gas");
                }
                let z = vec![vec![1.0; x.s], vec![0.0; x.s]];
                sim.set_prim(D::Cent, &z);
                sim.set_cons(D::Cent, &z);
                sim.set_c(D::Cent, &vec![0.0; x.s]);
                sim.op(Op::Derived(D::Cent));
                ("no waves at all", true)
            },
            3 => {
                let mut q = sim.prim();
                for v in q[1].iter_mut() {
                    *v = f64::NAN;
                }
                sim.set_prim(D::Cent, &q);
                sim.op(Op::Cons(D::Cent));
                sim.op(Op::Derived(D::Cent));
                ("NaN velocities", true)
            },
            4 => {
                let mut q = sim.prim();
                for v in q[1].iter_mut() {
                    *v = f64::INFINITY;
                }
                sim.set_prim(D::Cent, &q);
                sim.op(Op::Cons(D::Cent));
                sim.op(Op::Derived(D::Cent));
                ("infinite velocities", true)
            },
            _ => {
                sim.ts().dt_min = f64::INFINITY;
                ("infinite dt_min", true)
            },
        };
        let before = full(&*sim);
        let t = sim.ts().t;
        let r = sim.step();
        if expect_err {
            need!(r.is_err(), "{what}: the step succeeds with dt = {:e} (CFL step {cfl:e})", sim.ts().dt);
            for (a, b) in full(&*sim).iter().zip(&before) {
                if let Some(f) = a.diff(b) {
                    return fail(format!("{what}: the failed step changed {f}"));
                }
            }
            need!(sim.ts().t == t, "{what}: the failed step changed the time");
        } else if let Err(e) = r {
            if !phys(&before[0].prim) || undecided(&x, &before[0].prim) {
                return discard("unphysical state");
            }
            let (h, _, ok) = p.step(x.rk, &before[0].cons, cfl.min(x.dt_max).min(x.t_end - t));
            let prim = p.complete(&h).0;
            if !ok || !phys(&prim) {
                return discard("unphysical step");
            }
            return fail(format!("{what}: the step fails: {}", sim::errstr(&e)));
        }
        cx.label(what);
        cx.nontrivial();
        Ok(())
    };
    Property {
        id: "C14",
        rule: "runs with a step limited by the CFL condition; CFL steps of single states; steps that must fail",
        parts: vec![
            part("runs", 8_000, 250_000, strat, oracle),
            part("single", 40_000, 800_000, sstrat, soracle),
            part("failing", 18_000, 360_000, bstrat, boracle),
        ],
    }
}

// =====================================================================================================================
// C15 step control, C31 reference solver
// =====================================================================================================================

/// How strongly rounding shows in the error estimate
fn err_noise(x: &Scn, p: &Problem, s: &StepRec) -> f64 {
    let Some([rt, at, _]) = x.asc else { return 0.0 };
    let c = refsol::sound(&s.prim_before, x.gamma, &p.c_iso);
    let sc = p.scales(&s.prim_before, &c);
    let mut nu = 0.0f64;
    for j in 0..x.e() {
        for i in 2..x.s - 2 {
            nu = nu.max(1e-14 * sc[j] / (rt * (s.cons_before[j][i].abs() + at)));
        }
    }
    nu
}

fn asc_scn(all_modes: bool) -> impl Strategy<Value = Scn> {
    let o = Opt {
        asc: true,
        steps: 8.0,
        long: 80.0,
        amp: 1.5,
        mach: 2.0,
        sizes: &[6, 6, 7, 7, 8, 8, 9, 9, 10, 12, 12, 13, 16, 17, 17, 6, 7, 8, 9, 12, 17, 33, 36, 68, 100],
        ..Opt::default()
    };
    (
        scn(o),
        rk_asc(),
        (logu(1e-6, 1e-1), logu(1e-6, 1.0), logu(0.01, 0.5)),
        prop_oneof![Just(f64::INFINITY), 0.2f64..1.0],
        logu(1e-8, 1e-2),
    )
        .prop_map(move |(mut x, rk, a, lim, dm)| {
            if !all_modes || x.asc.is_some() {
                x.rk = rk;
                x.asc = Some([a.0, a.1, a.2]);
            }
            let dt = x.cfl * x.dx() / x.speed();
            if lim.is_finite() {
                x.dt_max = lim * dt;
            }
            x.dt_min = dm * dt.min(x.dt_max);
            x.iter_max = if x.t_end - x.t0 > 10.0 * dt { 150 } else { 40 };
            x
        })
}

pub fn c15() -> Property {
    let oracle = |x: &Scn, cx: &mut Cx| -> Res {
        let (r, rec, _) = run_rec(x, 2)?;
        let p = Problem::new(x);
        let [rt, at, _] = x.asc.unwrap();
        let mut rejected = 0;
        let mut judged = 0;
        for (k, s) in rec.iter().enumerate() {
            let (cap, cfl) = cap_of(x, &p, s);
            if undecided(x, &s.prim_before) {
                break;
            }
            let slack = 1e-12 * cfl + 2.0 * f64::EPSILON * s.t_before.max(s.t_after);
            let noise = 100.0 * err_noise(x, &p, s);
            let err_at = |dt: f64| {
                let (h, l, ok) = p.step(x.rk, &s.cons_before, dt);
                if ok && phys(&p.complete(&h).0) {
                    Some(refsol::asc_err(&h, &l, rt, at))
                } else {
                    None
                }
            };
            if s.ok {
                need!(
                    s.dt <= cap + slack,
                    "step {k}: dt = {:e} is larger than {cap:e} (CFL step {cfl:e}, dt_max {:e})",
                    s.dt,
                    x.dt_max
                );
                if let Some(e) = err_at(s.dt) {
                    judged += 1;
                    need!(
                        e < 1.001 + noise,
                        "step {k}: dt = {:e} is taken, although its estimated error is {e:e}",
                        s.dt
                    );
                }
                if s.dt < cap - slack {
                    rejected += 1;
                    need!(s.dt >= x.dt_min, "step {k}: dt = {:e} after rejection is below dt_min {:e}", s.dt, x.dt_min);
                    if let Some(e) = err_at(cap) {
                        need!(
                            e > 0.999 - noise,
                            "step {k}: dt = {:e} although {cap:e} has an estimated error of {e:e} only",
                            s.dt
                        );
                    }
                }
            } else {
                // must have had a reason
                if cap >= x.dt_min && s.iter < x.iter_max {
                    if let Some(e) = err_at(cap) {
                        need!(
                            e > 0.999 - noise,
                            "step {k} fails ({}), although dt = {cap:e} has an estimated error of {e:e} only",
                            r.clone().err().unwrap_or_default()
                        );
                    }
                    if let Err(m) = &r {
                        if m.contains("dt_min") {
                            cx.label("fails at dt_min");
                        }
                    }
                }
                break;
            }
        }
        cx.label(format!("{:?}", x.rk));
        if rejected > 0 {
            cx.label("runs with rejections");
        }
        if judged > 0 && (rejected > 0 || r.is_err()) {
            cx.nontrivial();
        }
        Ok(())
    };
    // tolerances that cannot be met
    let hstrat = || {
        (asc_scn(false), logu(1e-13, 1e-6), logu(1e-5, 0.5)).prop_map(|(mut x, t, dm)| {
            let a = x.asc.unwrap();
            x.asc = Some([t, a[1], a[2]]);
            x.dt_min = dm * (x.cfl * x.dx() / x.speed()).min(x.dt_max);
            x
        })
    };
    let horacle = |x: &Scn, cx: &mut Cx| -> Res {
        sim::set_budget(20_000);
        let (r, rec, _) = run_rec(x, 2)?;
        let p = Problem::new(x);
        let Some(s) = rec.first() else { return discard("no step") };
        if undecided(x, &s.prim_before) {
            return discard("outflow at velocity 0");
        }
        // the first step alone: does any of the widths pass?
        let (cap, _) = cap_of(x, &p, s);
        let [rt, at, _] = x.asc.unwrap();
        let noise = 100.0 * err_noise(x, &p, s);
        let mut dt = cap;
        let mut hopeless = noise.is_finite();
        for _ in 0..200 {
            let (h, l, ok) = p.step(x.rk, &s.cons_before, dt);
            let e = refsol::asc_err(&h, &l, rt, at);
            hopeless &= ok && e > 2.0 + noise;
            dt *= 0.9;
            if dt < x.dt_min {
                break;
            }
        }
        if hopeless && s.ok {
            // a passable width between those above
            let (h, l, ok) = p.step(x.rk, &s.cons_before, s.dt);
            if ok && s.dt >= x.dt_min && refsol::asc_err(&h, &l, rt, at) < 1.001 + noise {
                return discard("a passable width is narrow");
            }
        }
        if hopeless {
            need!(!s.ok, "a step succeeds with dt = {:e} although no width meets the tolerance", s.dt);
            need!(r.is_err(), "the run succeeds although no width meets the tolerance");
            need!(rec.len() == 1, "the run goes on after a failed step");
            cx.nontrivial();
            cx.label("hopeless");
        }
        Ok(())
    };
    // modes without an embedded pair
    let nstrat = || {
        (scn(Opt { steps: 8.0, amp: 1.0, ..Opt::default() }), 0usize..3, logu(1e-12, 1e-3)).prop_map(|(mut x, k, t)| {
            x.rk = [Rk::RK1, Rk::RK2, Rk::RK4][k];
            x.asc = Some([t, 1e-9, 0.08]);
            x.iter_max = 60;
            x
        })
    };
    let noracle = |x: &Scn, cx: &mut Cx| -> Res {
        let (r1, a, _) = run_rec(x, 2)?;
        let mut y = x.clone();
        y.asc = None;
        let (r2, b, _) = run_rec(&y, 2)?;
        need!(r1.is_ok() == r2.is_ok() && a.len() == b.len(), "step control changes a run with {:?}", x.rk);
        for (k, (s, t)) in a.iter().zip(&b).enumerate() {
            need!(
                s.dt.to_bits() == t.dt.to_bits() && s.ok == t.ok,
                "step {k} with {:?} and step control: dt = {:e}, without {:e}",
                x.rk,
                s.dt,
                t.dt
            );
            need!(same_bits(&s.cons_after, &t.cons_after), "step control changes the states of {:?}", x.rk);
        }
        cx.label(format!("{:?}", x.rk));
        cx.nontrivial();
        Ok(())
    };
    Property {
        id: "C15",
        rule: "runs with a rejected attempt or a failing step; hopeless tolerances; modes without step control",
        parts: vec![
            part("tolerated", 10_000, 250_000, || asc_scn(false), oracle),
            part("hopeless", 3_000, 60_000, hstrat, horacle),
            part("no-embedded-pair", 6_000, 120_000, nstrat, noracle),
        ],
    }
}

pub fn c31() -> Property {
    let strat = || {
        asc_scn(true).prop_map(|mut x| {
            if x.asc.is_none() {
                x.iter_max = 60;
            }
            x
        })
    };
    let mstrat = || {
        scn(Opt {
            steps: 30.0,
            long: 400.0,
            amp: 1.5,
            mach: 2.5,
            sizes: &[6, 8, 10, 12, 17, 33, 36, 68, 6, 8, 12, 13, 16, 17, 36, 68, 6, 8, 9, 12, 17, 100, 260],
            ..Opt::default()
        })
        .prop_map(|mut x| {
            x.iter_max = if x.s <= 9 { 500 } else { 120 };
            x
        })
    };
    fn oracle(x: &Scn, cx: &mut Cx) -> Res {
        let (r, rec, sim) = run_rec(x, 2)?;
        let p = Problem::new(x);
        let dur = x.t_end - x.t0;
        let eps = 4.0 * f64::EPSILON * x.t_end;
        let mut judged = 0;
        let mut asc_rejections = 0;
        // the error of the previous attempt
        let mut err_old = 0.0f64;
        let mut outputs = 0usize;
        let mut prev: Option<V2> = None;
        for (k, s) in rec.iter().enumerate() {
            if let Some(q) = &prev {
                need!(same_bits(q, &s.cons_before), "the state changed between steps {} and {k}", k - 1);
            }
            // schedule of outputs
            while x.n_out > 0
                && outputs <= x.n_out
                && s.t_before >= x.t0 + outputs as f64 * dur / x.n_out as f64 - x.dt_min
            {
                outputs += 1;
            }
            let next = if x.n_out > 0 && outputs <= x.n_out {
                x.t0 + outputs as f64 * dur / x.n_out as f64
            } else {
                f64::INFINITY
            };
            let (_, cfl) = cap_of(x, &p, s);
            let cap = cfl.min(x.dt_max).min(next.min(x.t_end) - s.t_before);
            if undecided(x, &s.prim_before) {
                break;
            }
            if cap < x.dt_min * (1.0 + 1e-9) && cfl < x.dt_min * (1.0 + 1e-9) {
                if cfl < x.dt_min * (1.0 - 1e-9) {
                    need!(!s.ok, "step {k} succeeds although the CFL step {cfl:e} is below dt_min {:e}", x.dt_min);
                }
                break;
            }
            let mut dt = cap;
            let mut rel = 1e-12;
            let mut judgeable = true;
            if let Some([rt, at, fr]) = x.asc {
                let nu = err_noise(x, &p, s);
                let mut tries = 0;
                loop {
                    let (h, l, ok) = p.step(x.rk, &s.cons_before, dt);
                    if !ok {
                        judgeable = false;
                        break;
                    }
                    let e = refsol::asc_err(&h, &l, rt, at);
                    let n = 100.0 * (nu + 1e-10) * (1.0 + e);
                    if (e - 1.0).abs() <= n || (e > 0.0 && e < 10.0 * nu && err_old > 0.0) {
                        judgeable = false;
                        break;
                    }
                    if e < 1.0 {
                        err_old = e;
                        break;
                    }
                    let tmp = 0.9 * dt * e.powf(-1.0 / x.rk.stages() as f64);
                    let mut new = if err_old > 0.0 { tmp * (err_old / e).powf(-fr) } else { tmp };
                    if err_old > 0.0 {
                        rel += 10.0 * fr * nu / err_old;
                    }
                    if new > dt {
                        new = tmp;
                    }
                    rel += 10.0 * nu + 1e-10;
                    dt = new.max(0.25 * dt);
                    err_old = e;
                    tries += 1;
                    if dt < x.dt_min * (1.0 + rel) {
                        if dt < x.dt_min * (1.0 - rel) {
                            need!(
                                !s.ok,
                                "step {k} succeeds with {:e} although the tolerance cannot be met above dt_min {:e}",
                                s.dt,
                                x.dt_min
                            );
                        }
                        judgeable = false;
                        break;
                    }
                    if rel > 1e-5 || tries > 400 {
                        judgeable = false;
                        break;
                    }
                }
                if tries > 0 {
                    asc_rejections += 1;
                }
            }
            if !judgeable {
                break;
            }
            let (h, _, ok) = p.step(x.rk, &s.cons_before, dt);
            let (prim, cons, c) = p.complete(&h);
            if !ok || !phys(&prim) {
                break;
            }
            let margin = (0..x.s).all(|i| x.e() == 2 || prim[2][i] > 1e-6 * (x.gamma - 1.0) * cons[2][i]);
            if !margin {
                break;
            }
            if !s.ok {
                need!(
                    s.iter >= x.iter_max,
                    "step {k} fails, but the reference solver gets a valid solution: {}",
                    r.clone().err().unwrap_or_default()
                );
                break;
            }
            need!(
                (s.dt - dt).abs() <= rel * dt + 1e-12 * cfl * (if x.asc.is_none() { 1.0 } else { 1e-3 }) + 4.0 * eps,
                "step {k}: dt = {:e}, the reference solver takes {dt:e} (CFL {cfl:e})",
                s.dt
            );
            need!(
                (s.t_after - (s.t_before + s.dt)).abs() <= eps,
                "step {k}: time goes from {:e} to {:e} with dt = {:e}",
                s.t_before,
                s.t_after,
                s.dt
            );
            // the state, for the step width that was really taken
            let (h, _, ok) = p.step(x.rk, &s.cons_before, s.dt);
            if !ok {
                break;
            }
            let (prim, cons, _) = p.complete(&h);
            if undecided(x, &prim) {
                break;
            }
            let sc = p.scales(&prim, &c);
            let sp = p.scales(&s.prim_before, &refsol::sound(&s.prim_before, x.gamma, &p.c_iso));
            for j in 0..x.e() {
                for i in 0..x.s {
                    let size = sc[j].max(sp[j]);
                    need!(
                        (s.cons_after[j][i] - cons[j][i]).abs() <= 1e-9 * size,
                        "step {k} (dt = {:e}): conservative variable {j} in cell {i} is {:e}, the reference solver \
                         gets {:e} (tolerance {:e})",
                        s.dt,
                        s.cons_after[j][i],
                        cons[j][i],
                        1e-9 * size
                    );
                }
            }
            judged += 1;
            prev = Some(s.cons_after.clone());
        }
        if r.is_ok() {
            if let Some(s) = rec.last() {
                need!(same_bits(&sim.cons(), &s.cons_after), "the state changed after the last step");
            }
        }
        cx.label(x.fx.name());
        cx.label(format!("{:?}", x.rk));
        cx.label(if x.ad { "adiabatic" } else { "isothermal" });
        if judged == rec.len() {
            cx.label("judged to the end");
        }
        if asc_rejections > 0 {
            cx.label("with rejections");
        }
        if judged >= 2 {
            cx.nontrivial();
        }
        Ok(())
    }
    Property {
        id: "C31",
        rule: "at least two steps of a run agree with the reference solver in time, width and state",
        parts: vec![
            part("runs", 8_000, 200_000, mstrat, oracle),
            part("step-control", 8_000, 200_000, strat, oracle),
        ],
    }
}

// =====================================================================================================================
// C24 physical states
// =====================================================================================================================

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BadState {
    x: Scn,
    kind: u8,
    /// which value
    val: u8,
    cell: f64,
    eq: usize,
    eval: u64,
}

fn bad_value(k: u8) -> f64 {
    match k {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => f64::NEG_INFINITY,
        _ => -f64::NAN,
    }
}

pub fn c24() -> Property {
    // violent problems: whatever is successful must be fine
    let strat = || {
        let o = Opt {
            amp: 5.0,
            mach: 10.0,
            steps: 30.0,
            asc: true,
            ..Opt::default()
        };
        (scn(o), prop_oneof![Just(0.4), 0.1f64..3.0]).prop_map(|(mut x, cfl)| {
            x.cfl = cfl;
            x.iter_max = 60;
            x
        })
    };
    let oracle = |x: &Scn, cx: &mut Cx| -> Res {
        let (r, rec, sim) = run_rec(x, 2)?;
        for (k, s) in rec.iter().enumerate() {
            if !s.ok {
                need!(k + 1 == rec.len(), "the run goes on after a failed step");
                need!(r.is_err(), "a step failed, but the run is successful");
                break;
            }
            for (name, v) in [("primitive", &s.prim_after), ("conservative", &s.cons_after)] {
                for j in 0..x.e() {
                    for i in 0..x.s {
                        need!(
                            v[j][i].is_finite(),
                            "step {k} is successful, but {name} variable {j} in cell {i} is {:e}",
                            v[j][i]
                        );
                        if j != 1 {
                            need!(
                                v[j][i] > 0.0,
                                "step {k} is successful, but {name} variable {j} in cell {i} is {:e}",
                                v[j][i]
                            );
                        }
                    }
                }
            }
            need!(s.dt.is_finite() && s.t_after.is_finite(), "step {k}: non-finite time");
        }
        if r.is_ok() {
            need!(phys(&sim.prim()), "the run is successful, but its final state is unphysical");
        }
        cx.label(if r.is_ok() { "run succeeded" } else { "run failed" });
        if r.is_err() || rec.len() > 3 {
            cx.nontrivial();
        }
        Ok(())
    };
    let istrat = || {
        let o = Opt {
            amp: 1.0,
            mach: 1.0,
            asc: true,
            stable: true,
            steps: 5.0,
            ..Opt::default()
        };
        (scn(o), 0u8..10, 0u8..4, 0.0f64..1.0, 0usize..3, 1u64..60)
            .prop_map(|(x, kind, val, cell, eq, eval)| BadState { x, kind, val, cell, eq, eval })
    };
    let ioracle = |c: &BadState, cx: &mut Cx| -> Res {
        let mut x = c.x.clone();
        x.iter_max = 100;
        let i = 2 + ((x.s - 4) as f64 * c.cell) as usize;
        let j = c.eq % x.e();
        let v = bad_value(c.val);
        let clean = x.clone();
        let what = match c.kind {
            // initial states
            0..=1 => {
                x.cells[i][j] = v;
                format!("initial primitive variable {j} is {v}")
            },
            2 => {
                let j = if x.ad && j == 2 { 2 } else { 0 };
                x.cells[i][j] = -x.cells[i][j];
                format!("initial primitive variable {j} is negative")
            },
            3 => {
                let j = if x.ad && j == 2 { 2 } else { 0 };
                x.cells[i][j] = 0.0;
                format!("initial primitive variable {j} is zero")
            },
            4 | 5 => format!("state set to {v} between steps"),
            6 => "negative density or pressure between steps".to_string(),
            _ => format!("right-hand side {v}"),
        };
        if c.kind <= 3 {
            let mut sim = match sim::build(&x.conf(), x.ad, x.s, x.init()) {
                Ok(s) => s,
                Err(_) => {
                    cx.label("rejected by the initialisation");
                    cx.nontrivial();
                    return Ok(());
                },
            };
            if c.kind == 3 && !phys(&clean.prim()) {
                return discard("state was bad before");
            }
            sim::record(2);
            let r = sim.run();
            let rec = sim::take_record();
            need!(r.is_err(), "{what} in cell {i}: the run succeeds");
            need!(
                rec.len() == 1 && !rec[0].ok,
                "{what} in cell {i}: the first step succeeds, the error comes in step {} only",
                rec.len() - 1
            );
            cx.label("initial state");
            cx.nontrivial();
            return Ok(());
        }
        let mut sim = x.build()?;
        sim.ts().t_next_output = f64::MAX;
        let good = if c.kind <= 6 { c.eval as usize % 4 } else { 0 };
        for _ in 0..good {
            if sim.step().is_err() {
                return discard("step fails");
            }
        }
        if c.kind <= 6 {
            let mut q = sim.vars(D::Cent).cons;
            if c.kind == 6 {
                if x.ad && j == 2 {
                    // energy below the kinetic energy
                    q[2][i] = 0.5 * q[1][i] * q[1][i] / q[0][i] - 0.1 * q[2][i];
                } else {
                    q[0][i] = -q[0][i];
                }
            } else {
                q[j][i] = v;
            }
            sim.set_cons(D::Cent, &q);
            sim.op(Op::FromCons(D::Cent));
            let r = sim.step();
            need!(r.is_err(), "{what} (equation {j}, cell {i}): the next step succeeds");
            cx.label(if c.kind == 6 { "negative between steps" } else { "non-finite between steps" });
            cx.nontrivial();
        } else {
            // spoil one evaluation of the right-hand side
            let mut n = 0;
            sim::poison(c.eval, v, j, i);
            let at = sim::evals() + c.eval;
            let mut prev = sim::evals();
            loop {
                let r = sim.step();
                n += 1;
                let now = sim::evals();
                if prev < at && at <= now {
                    need!(
                        r.is_err(),
                        "{what} (equation {j}, cell {i}, evaluation {} of {} in step {n}): the step succeeds",
                        at - prev,
                        now - prev
                    );
                    cx.label("right-hand side");
                    cx.label(format!("{:?}", x.rk));
                    cx.nontrivial();
                    break;
                }
                if r.is_err() || n > 80 {
                    return discard("failed before");
                }
                prev = now;
            }
        }
        Ok(())
    };
    Property {
        id: "C24",
        rule: "a violent run with more than three steps or a failure, every step judged; or a bad value injected",
        parts: vec![
            part("violent", 10_000, 250_000, strat, oracle),
            part("injected", 30_000, 600_000, istrat, ioracle),
        ],
    }
}
