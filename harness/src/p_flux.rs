//! Fluxes and the symmetries of whole schemes: uniform flows, conservation, HLL, KT, stencils, mirror, units

use crate::engine::*;
use crate::gen::*;
use crate::need;
use crate::refsol::{self, Problem};
use crate::sim::{self, same_bits, Sim, StepRec, D, V2};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// Runs a scenario and returns what happened. `level` as for `sim::record`.
pub fn run_rec(x: &Scn, level: u8) -> Res<(Result<(), String>, Vec<StepRec>, Box<dyn Sim>)> {
    let mut sim = x.build()?;
    sim::record(level);
    let r = sim.run().map_err(|e| sim::errstr(&e));
    let rec = sim::take_record();
    sim::record(0);
    Ok((r, rec, sim))
}

fn maxabs(v: &[f64]) -> f64 {
    v.iter().fold(0.0f64, |a, x| a.max(x.abs()))
}

// =====================================================================================================================
// C05 uniform flow
// =====================================================================================================================

pub fn c05() -> Property {
    let strat = || {
        let o = Opt {
            amp: 0.0,
            asc: true,
            steps: 25.0,
            ..Opt::default()
        };
        let m = prop_oneof![1 => Just(0.0), 4 => -3.0f64..3.0, 1 => -30.0f64..30.0, 1 => Just(1.0), 1 => Just(-1.0)];
        let sc = || prop_oneof![3 => Just(Bm::NoGradients), 1 => Just(Bm::Extrapolate)];
        (scn(o), m, any::<bool>(), sc(), sc(), sc(), sc(), 0u8..5, 0u8..5, logu(0.01, 100.0)).prop_map(
            |(mut x, m, plain, dw, de, pw, pe, vw, ve, press)| {
                let c0 = x.c_of(&x.cells[0]);
                let v = m * c0;
                let third = x.cells[0][2];
                let rho = x.cells[0][0];
                // another pressure at the same sound speed
                let (rho, third) = if x.ad { (rho * press, third * press) } else { (rho * press, third) };
                for c in x.cells.iter_mut() {
                    *c = [rho, v, third];
                }
                let vel = |k: u8, out: bool| match k {
                    1 => Bm::Extrapolate,
                    2 if out => Bm::OutflowNoGradients,
                    3 if out => Bm::OutflowExtrapolate,
                    4 if v == 0.0 => Bm::Reflecting,
                    2 if v == 0.0 => Bm::NearZero,
                    _ => Bm::NoGradients,
                };
                let mk = |d, p, vb| {
                    let mut w = vec![(0, d), (1, vb)];
                    if x.ad {
                        w.push((2, p));
                    }
                    Some(w)
                };
                let (bw, be) = (mk(dw, pw, vel(vw, v < 0.0)), mk(de, pe, vel(ve, v > 0.0)));
                x.bcw = if plain { None } else { bw };
                x.bce = if plain { None } else { be };
                // durations were made for the old state
                let dur = (x.t_end - x.t0) * (c0 / (c0 + v.abs()));
                x.t_end = x.t0 + dur;
                x.dt_min *= c0 / (c0 + v.abs());
                x
            },
        )
    };
    let oracle = |x: &Scn, cx: &mut Cx| -> Res {
        let (r, rec, sim) = run_rec(x, 1)?;
        if let Err(e) = r {
            return fail(format!("a uniform flow fails: {e}"));
        }
        let [rho, v, third] = x.cells[0];
        let a = v.abs() + x.c_of(&x.cells[0]);
        let evals: u64 = rec.iter().map(|s| s.evals).sum();
        let tol = 2e-15 * (20.0 + 4.0 * evals as f64);
        let want = [rho, v, third];
        let scale = [rho, a, rho * a * a];
        let prim = sim.prim();
        for j in 0..x.e() {
            for i in 0..x.s {
                need!(
                    (prim[j][i] - want[j]).abs() <= tol * scale[j],
                    "after {} steps primitive variable {j} of cell {i} is {:e}, it was {:e} (tolerance {:e})",
                    rec.len(),
                    prim[j][i],
                    want[j],
                    tol * scale[j]
                );
            }
        }
        cx.label(x.fx.name());
        cx.label(format!("{:?}", x.rk));
        cx.label(if x.ad { "adiabatic" } else { "isothermal" });
        if rec.len() >= 2 {
            cx.nontrivial();
        }
        Ok(())
    };
    Property {
        id: "C05",
        rule: "uniform flow run over at least two steps",
        parts: vec![part("uniform", 30_000, 600_000, strat, oracle)],
    }
}

// =====================================================================================================================
// C06 conservation
// =====================================================================================================================

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SumCase {
    x: Scn,
    /// factors for the cells in the interior
    mod_: Vec<[f64; 3]>,
}

fn rhs_of(x: &Scn) -> Res<(V2, bool)> {
    let mut sim = x.build()?;
    let ok = sim.rhs_update();
    Ok((sim.rhs(), ok.is_ok()))
}

pub fn c06() -> Property {
    let strat = || {
        let o = Opt {
            sizes: MIXED,
            tail: 3.0,
            ..Opt::default()
        };
        (
            scn(o),
            proptest::collection::vec([0.2f64..3.0, -1.5f64..1.5, 0.3f64..3.0], 10),
        )
            .prop_map(|(x, mod_)| SumCase { x, mod_ })
    };
    let sums = |r: &V2, dx: f64| -> Vec<f64> { r.iter().map(|v| v[2..v.len() - 2].iter().sum::<f64>() * dx).collect() };
    let oracle = move |c: &SumCase, cx: &mut Cx| -> Res {
        let x = &c.x;
        let p = Problem::new(x);
        let mut prim = x.prim();
        refsol::apply_bc(&mut prim, &x.bcw, &x.bce, &p.mesh);
        let ref_of = |prim: V2| {
            let cons = refsol::to_cons(&prim, x.gamma);
            let cs = refsol::sound(&prim, x.gamma, &p.c_iso);
            p.rhs_completed(prim, cons, cs)
        };
        let r = ref_of(prim);
        let (rhs, ok) = rhs_of(x)?;
        if !r.physical {
            return discard("unphysical face values");
        }
        need!(ok, "the right-hand side of a valid state is rejected");
        let got = sums(&rhs, p.mesh.dx);
        let tol = |r: &refsol::RhsOut, j: usize| {
            1e-14 * r.scale[j][2..x.s - 2].iter().sum::<f64>() * p.mesh.dx * 10.0 + f64::MIN_POSITIVE
        };
        for j in 0..x.e() {
            let want = r.flux[j][x.s - 3] - r.flux[j][1];
            // cancellation inside of the edge fluxes
            let t = tol(&r, j) + 1e-12 * (r.flux_scale[j][x.s - 3] + r.flux_scale[j][1]);
            need!(
                (got[j] - want).abs() <= t,
                "equation {j}: the right-hand sides add up to {:e}, but the fluxes through the edges to {want:e} \
                 (tolerance {t:e})",
                got[j]
            );
        }
        cx.label(x.fx.name());
        // the interior does not matter
        if x.s >= 9 {
            let mut y = x.clone();
            for i in 4..x.s - 4 {
                let m = c.mod_[i % c.mod_.len()];
                y.cells[i][0] *= m[0];
                y.cells[i][1] += m[1] * x.c_of(&x.cells[i]);
                if x.ad {
                    y.cells[i][2] *= m[2];
                }
            }
            let mut prim = y.prim();
            refsol::apply_bc(&mut prim, &y.bcw, &y.bce, &p.mesh);
            let r2 = ref_of(prim);
            let (rhs2, ok) = rhs_of(&y)?;
            if r2.physical && ok {
                let got2 = sums(&rhs2, p.mesh.dx);
                for j in 0..x.e() {
                    let t = tol(&r, j) + tol(&r2, j);
                    need!(
                        (got[j] - got2[j]).abs() <= t,
                        "equation {j}: changing the interior changes the sum of the right-hand sides from {:e} to {:e} \
                         (tolerance {t:e})",
                        got[j],
                        got2[j]
                    );
                }
                cx.label("interior changed");
                if !same_bits(&rhs, &rhs2) {
                    cx.nontrivial();
                }
            }
        } else {
            cx.nontrivial();
        }
        Ok(())
    };
    let bstrat = || {
        let o = Opt {
            closed: true,
            sizes: &[6, 6, 7, 7, 8, 8, 9, 9, 10, 12, 12, 13, 16, 17, 17, 6, 7, 8, 9, 12, 17, 33, 36, 36, 68, 68, 100, 260],
            steps: 40.0,
            long: 500.0,
            amp: 1.5,
            mach: 2.0,
            tail: 3.5,
            asc: true,
            ..Opt::default()
        };
        scn(o).prop_map(|mut x| {
            x.fx = Fx::Hll;
            x.iter_max = if x.s <= 9 { 600 } else { 150 };
            if !x.ad {
                // the walls reflect the state of the gas, so its temperature must be the same on both sides
                let s = x.s;
                for (g, i) in [(1, 2), (0, 3), (s - 2, s - 3), (s - 1, s - 4)] {
                    x.cells[g][2] = x.cells[i][2];
                }
            }
            x
        })
    };
    let boracle = |x: &Scn, cx: &mut Cx| -> Res {
        let (r, rec, sim) = run_rec(x, 2)?;
        let totals = |c: &V2| -> Vec<f64> { c.iter().map(|v| v[2..v.len() - 2].iter().sum()).collect() };
        let Some(first) = rec.first() else { return discard("no step") };
        let t0 = totals(&first.cons_before);
        let mut n = 0;
        let mut sizes = vec![0.0f64; x.e()];
        for s in rec.iter() {
            if !s.ok {
                break;
            }
            n += s.evals;
            let p = Problem::new(x);
            let c = refsol::sound(&s.prim_before, x.gamma, &p.c_iso);
            for (a, b) in sizes.iter_mut().zip(p.scales(&s.prim_before, &c)) {
                *a = a.max(b * x.s as f64);
            }
            let t = totals(&s.cons_after);
            for j in [0, 2] {
                if j >= x.e() {
                    continue;
                }
                let tol = 1e-15 * sizes[j] * (20.0 + 4.0 * n as f64);
                need!(
                    (t[j] - t0[j]).abs() <= tol,
                    "the total of conserved variable {j} in a closed box changed from {:e} to {:e} until t = {:e} \
                     (tolerance {tol:e})",
                    t0[j],
                    t[j],
                    s.t_after
                );
            }
        }
        let _ = sim;
        cx.label(if r.is_ok() { "run succeeded" } else { "run failed" });
        cx.label(format!("{:?}", x.rk));
        if rec.len() > 3 {
            cx.nontrivial();
        }
        Ok(())
    };
    Property {
        id: "C06",
        rule: "sum of the right-hand side compared for a state and one with a different interior (right-hand sides \
               differing), or totals followed over more than three steps of a closed box",
        parts: vec![
            part("telescoping", 80_000, 1_600_000, strat, oracle),
            part("closed-box", 10_000, 200_000, bstrat, boracle),
        ],
    }
}

// =====================================================================================================================
// C07, C08 fluxes
// =====================================================================================================================

fn wide() -> Opt {
    Opt {
        sizes: MIXED,
        amp: 3.0,
        mach: 4.0,
        tail: 3.0,
        ..Opt::default()
    }
}

/// Compares the right-hand side of the initial state with the reference
fn judge_rhs(x: &Scn, cx: &mut Cx, faces: bool) -> Res {
    let p = Problem::new(x);
    let mut prim = x.prim();
    refsol::apply_bc(&mut prim, &x.bcw, &x.bce, &p.mesh);
    let cons = refsol::to_cons(&prim, x.gamma);
    let c = refsol::sound(&prim, x.gamma, &p.c_iso);
    let r = p.rhs_completed(prim, cons, c);
    let mut sim = x.build()?;
    let ok = sim.rhs_update();
    if faces && r.physical {
        let (w, e) = (sim.vars(D::West).cons, sim.vars(D::East).cons);
        let cent = &r.cons;
        for j in 0..x.e() {
            for i in 1..x.s - 1 {
                let mut size = cent[j][i - 1].abs() + cent[j][i].abs() + cent[j][i + 1].abs();
                // extrapolated ghost cells carry the rounding of the cells they come from
                if i <= 2 {
                    size += cent[j][..4].iter().map(|v| v.abs()).sum::<f64>();
                }
                if i >= x.s - 3 {
                    size += cent[j][x.s - 4..].iter().map(|v| v.abs()).sum::<f64>();
                }
                // the energies of high-speed flows carry the rounding of their parts
                let tol = 1e-13 * size * 4.0;
                for (name, g, want) in [("west", w[j][i], r.west[j][i]), ("east", e[j][i], r.east[j][i])] {
                    need!(
                        (g - want).abs() <= tol,
                        "{name} face value of conservative variable {j} in cell {i} is {g:e}, expected {want:e} \
                         (cells {:e} {:e} {:e})",
                        cent[j][i - 1],
                        cent[j][i],
                        cent[j][i + 1]
                    );
                }
                let (a, b) = (cent[j][i] - cent[j][i - 1], cent[j][i + 1] - cent[j][i]);
                if x.fx != Fx::None {
                    let (wv, ev) = (w[j][i], e[j][i]);
                    if (a > tol && b < -tol) || (a < -tol && b > tol) {
                        need!(
                            (wv - cent[j][i]).abs() <= tol && (ev - cent[j][i]).abs() <= tol,
                            "reconstruction is not flat at the extremum in cell {i}, equation {j}"
                        );
                        cx.label("extremum");
                    }
                    // Monocent with theta > 2 may leave the range of the neighbours
                    let bounded = !matches!(x.fx, Fx::Monocent(t) if t > 2.0);
                    if bounded {
                        for (v, n) in [(wv, cent[j][i - 1]), (ev, cent[j][i + 1])] {
                            need!(
                                v >= n.min(cent[j][i]) - tol && v <= n.max(cent[j][i]) + tol,
                                "face value {v:e} in cell {i}, equation {j} is not between {:e} and {n:e}",
                                cent[j][i]
                            );
                        }
                    }
                }
                if (a - b).abs() <= 1e-3 * tol && x.fx != Fx::Superbee && a != 0.0 {
                    need!(
                        (e[j][i] - w[j][i] - a).abs() <= 2.0 * tol,
                        "linear profile is not reconstructed exactly in cell {i}, equation {j}"
                    );
                    cx.label("linear");
                }
            }
        }
    }
    if !r.physical {
        return discard("unphysical face values");
    }
    if let Err(e) = ok {
        return fail(format!("the right-hand side of a valid state is rejected: {}", sim::errstr(&e)));
    }
    let got = sim.rhs();
    for j in 0..x.e() {
        for i in 2..x.s - 2 {
            let t = if x.fx.is_hll() { 1e-12 } else { 3e-12 } * r.scale[j][i];
            need!(
                (got[j][i] - r.rhs[j][i]).abs() <= t,
                "right-hand side of equation {j} in cell {i} is {:e}, expected {:e} (tolerance {t:e})",
                got[j][i],
                r.rhs[j][i]
            );
        }
    }
    let mut sup = 0;
    for i in 1..x.s - 2 {
        let (v, c) = (r.prim[1][i], r.c[i]);
        let (v1, c1) = (r.prim[1][i + 1], r.c[i + 1]);
        if (v > c && v1 > c1) || (v < -c && v1 < -c1) {
            sup += 1;
        }
    }
    cx.label(match sup {
        0 => "subsonic",
        n if n == x.s - 3 => "supersonic",
        _ => "mixed",
    });
    cx.label(x.fx.name());
    cx.label(if x.ad { "adiabatic" } else { "isothermal" });
    if r.rhs.iter().any(|v| maxabs(v) > 0.0) {
        cx.nontrivial();
    }
    Ok(())
}

pub fn c07() -> Property {
    let strat = || {
        scn(wide()).prop_map(|mut x| {
            x.fx = Fx::Hll;
            x
        })
    };
    // purely supersonic flows: upwinding, without any reference to HLL
    let sstrat = || {
        (scn(Opt { plain_bc: true, ..wide() }), 1.05f64..5.0, any::<bool>()).prop_map(|(mut x, m, east)| {
            x.fx = Fx::Hll;
            x.bcw = None;
            x.bce = None;
            for k in 0..x.s {
                let c = x.c_of(&x.cells[k]);
                let v = c * m + x.cells[k][1].abs() * 0.1;
                x.cells[k][1] = if east { v } else { -v };
            }
            x
        })
    };
    let soracle = |x: &Scn, cx: &mut Cx| -> Res {
        let p = Problem::new(x);
        let mut prim = x.prim();
        refsol::apply_bc(&mut prim, &None, &None, &p.mesh);
        let cons = refsol::to_cons(&prim, x.gamma);
        let mut c = refsol::sound(&prim, x.gamma, &p.c_iso);
        if !x.ad {
            // ghost sound speeds are those of the user
            c = x.c_iso();
        }
        let f = refsol::flux(&prim, &cons, &c);
        let east = x.cells[0][1] > 0.0;
        if !(0..x.s).all(|i| prim[1][i].abs() > c[i] * 1.01 && (prim[1][i] > 0.0) == east) {
            return discard("not supersonic everywhere");
        }
        let mut sim = x.build()?;
        if let Err(e) = sim.rhs_update() {
            return fail(format!("the right-hand side of a valid state is rejected: {}", sim::errstr(&e)));
        }
        let got = sim.rhs();
        for j in 0..x.e() {
            for i in 2..x.s - 2 {
                let want = if east { f[j][i] - f[j][i - 1] } else { f[j][i + 1] - f[j][i] } / p.mesh.dx;
                let size = (i - 1..=i + 1)
                    .map(|k| {
                        f[j][k].abs() + Problem::cell_scale(j, &prim, &c, k, x.gamma) * (prim[1][k].abs() + c[k])
                    })
                    .sum::<f64>()
                    / p.mesh.dx;
                need!(
                    (got[j][i] - want).abs() <= 1e-12 * size,
                    "supersonic flow: right-hand side of equation {j} in cell {i} is {:e}, upwind difference {want:e}",
                    got[j][i]
                );
            }
        }
        cx.label(if east { "east" } else { "west" });
        cx.nontrivial();
        Ok(())
    };
    Property {
        id: "C07",
        rule: "right-hand side of a state with gradients compared in every cell",
        parts: vec![
            part("hll", 180_000, 3_600_000, strat, |x, cx| judge_rhs(x, cx, false)),
            part("upwind", 48_000, 960_000, sstrat, soracle),
        ],
    }
}

pub fn c08() -> Property {
    let strat = || {
        (scn(wide()), kt_fx()).prop_map(|(mut x, f)| {
            x.fx = f;
            x
        })
    };
    let lin = || {
        // linear in the conservative variables: constant velocity, linear density (and pressure)
        (scn(Opt { amp: 0.5, ..wide() }), kt_fx(), -0.9f64..0.9).prop_map(|(mut x, f, slope)| {
            x.fx = f;
            x.bcw = Some((0..x.e()).map(|j| (j, Bm::Extrapolate)).collect());
            x.bce = x.bcw.clone();
            let c0 = x.cells[0];
            let s = x.s as f64;
            for (i, c) in x.cells.iter_mut().enumerate() {
                let l = 1.0 + slope * (i as f64 - 0.5 * s) / s;
                *c = [c0[0] * l, c0[1], if x.ad { c0[2] * l } else { c0[2] }];
            }
            x
        })
    };
    Property {
        id: "C08",
        rule: "face values and right-hand side of a state with gradients compared in every cell",
        parts: vec![
            part("kt", 180_000, 3_600_000, strat, |x, cx| judge_rhs(x, cx, true)),
            part("linear", 36_000, 720_000, lin, |x, cx| judge_rhs(x, cx, true)),
        ],
    }
}

// =====================================================================================================================
// C09 stencils
// =====================================================================================================================

#[derive(Clone, Debug, Serialize, Deserialize)]
struct StencilCase {
    x: Scn,
    /// where to perturb, as a fraction of the domain
    at: f64,
    by: [f64; 3],
    steps: usize,
}

fn perturb(c: &StencilCase) -> (Scn, usize) {
    let mut y = c.x.clone();
    let k = 2 + ((c.x.s - 4) as f64 * c.at) as usize;
    let cs = y.c_of(&y.cells[k]);
    y.cells[k][0] *= c.by[0];
    y.cells[k][1] += c.by[1] * cs;
    if y.ad {
        y.cells[k][2] *= c.by[2];
    }
    (y, k)
}

pub fn c09() -> Property {
    let by = || [0.3f64..3.0, -1.0f64..1.0, 0.3f64..3.0];
    let strat = move || {
        (scn(Opt { sizes: MIXED, ..Opt::default() }), 0.0f64..1.0, by()).prop_map(|(x, at, by)| {
            StencilCase { x, at, by, steps: 0 }
        })
    };
    let oracle = |c: &StencilCase, cx: &mut Cx| -> Res {
        let (y, k) = perturb(c);
        let (mut a, mut b) = (c.x.build()?, y.build()?);
        if a.rhs_update().is_err() || b.rhs_update().is_err() {
            return discard("right-hand side rejected");
        }
        let (a, b) = (a.rhs(), b.rhs());
        let w = if c.x.fx.is_hll() { 1 } else { 2 };
        for j in 0..c.x.e() {
            for i in 2..c.x.s - 2 {
                if i.abs_diff(k) > w {
                    need!(
                        a[j][i].to_bits() == b[j][i].to_bits(),
                        "changing cell {k} changes the right-hand side of equation {j} in cell {i}: {:e} -> {:e}",
                        a[j][i],
                        b[j][i]
                    );
                }
            }
        }
        cx.label(c.x.fx.name());
        if !same_bits(&a, &b) {
            cx.nontrivial();
        }
        Ok(())
    };
    let rstrat = move || {
        let o = Opt {
            sizes: &[33, 36, 68, 100, 132],
            amp: 1.0,
            mach: 1.5,
            stable: true,
            ..Opt::default()
        };
        (scn(o), 0.0f64..1.0, by(), 1usize..5).prop_map(|(x, at, by, steps)| StencilCase { x, at, by, steps })
    };
    let roracle = |c: &StencilCase, cx: &mut Cx| -> Res {
        let mut c = c.clone();
        let (y, _) = perturb(&c);
        // the same fixed width for both
        let dt = 0.2 * c.x.dx() / c.x.speed().max(y.speed());
        c.x.cfl = 50.0;
        c.x.dt_max = dt;
        c.x.dt_min = 1e-9 * dt;
        c.x.t_end = c.x.t0 + 1000.0 * dt;
        let (y, k) = perturb(&c);
        let (mut a, mut b) = (c.x.build()?, y.build()?);
        for s in [&mut a, &mut b] {
            s.ts().t_next_output = f64::MAX;
        }
        let w = if c.x.fx.is_hll() { 1 } else { 2 };
        for n in 1..=c.steps {
            if a.step().is_err() || b.step().is_err() {
                return discard("step fails");
            }
            let (u, v) = (a.vars(D::Cent), b.vars(D::Cent));
            if a.ts().dt != dt || b.ts().dt != dt {
                return discard("step width not limited by dt_max");
            }
            let reach = n * c.x.rk.stages() * w;
            let mut far = 0;
            for j in 0..c.x.e() {
                for i in 2..c.x.s - 2 {
                    if i.abs_diff(k) > reach {
                        far += 1;
                        need!(
                            u.cons[j][i].to_bits() == v.cons[j][i].to_bits()
                                && u.prim[j][i].to_bits() == v.prim[j][i].to_bits(),
                            "changing cell {k} changes equation {j} in cell {i} after {n} steps: {:e} -> {:e}",
                            u.cons[j][i],
                            v.cons[j][i]
                        );
                    }
                }
            }
            if far > 0 && !same_bits(&u.cons, &v.cons) {
                cx.nontrivial();
            }
        }
        cx.label(c.x.fx.name());
        cx.label(format!("{:?}", c.x.rk));
        Ok(())
    };
    Property {
        id: "C09",
        rule: "a perturbed and an unperturbed simulation differ somewhere, and there are cells out of reach",
        parts: vec![
            part("rhs", 90_000, 1_800_000, strat, oracle),
            part("steps", 20_000, 400_000, rstrat, roracle),
        ],
    }
}

// =====================================================================================================================
// C10, C11 mirror and units
// =====================================================================================================================

fn mirrored(x: &Scn) -> Scn {
    let mut y = x.clone();
    y.xi_in = -x.xi_out;
    y.xi_out = -x.xi_in;
    y.cells.reverse();
    for c in y.cells.iter_mut() {
        c[1] = -c[1];
    }
    y.bcw = x.bce.clone();
    y.bce = x.bcw.clone();
    y
}

/// Outflow conditions switch at velocity 0: rounding decides there
pub fn undecided(x: &Scn, prim: &V2) -> bool {
    let amax = (0..x.s).fold(0.0f64, |a, i| a.max(prim[1][i].abs())).max(1e-6 * x.speed());
    for (b, i) in [(&x.bcw, 2), (&x.bce, x.s - 3)] {
        for (j, m) in refsol::modes(b, x.e()) {
            if m.is_outflow() {
                let size = if j == 1 { amax } else { prim[j][i].abs() };
                if prim[j][i].abs() <= 1e-9 * size {
                    return true;
                }
            }
        }
    }
    false
}

/// The error estimate of a recorded step, from the reference
pub fn err_of(x: &Scn, p: &Problem, s: &StepRec, dt: f64) -> f64 {
    let Some([rt, at, _]) = x.asc else { return 0.0 };
    let (h, l, _) = p.step(x.rk, &s.cons_before, dt);
    refsol::asc_err(&h, &l, rt, at)
}

fn cmp_runs(
    x: &Scn,
    a: (Result<(), String>, Vec<StepRec>),
    b: (Result<(), String>, Vec<StepRec>),
    map: &dyn Fn(usize, &V2) -> Vec<f64>,
    tmap: &dyn Fn(f64) -> f64,
    tol: f64,
    what: &str,
    // the run from a state perturbed by rounding, to see how well-conditioned the problem is
    shaken: Option<Vec<StepRec>>,
    cx: &mut Cx,
) -> Res {
    let p = Problem::new(x);
    let exact = shaken.is_none();
    let n = a.1.len().min(b.1.len());
    let mut tol = tol;
    for k in 0..n {
        let (s, t) = (&a.1[k], &b.1[k]);
        if let Some(sh) = &shaken {
            let Some(q) = sh.get(k) else { return discard("ill-conditioned") };
            if q.evals != s.evals || q.ok != s.ok {
                return discard("ill-conditioned");
            }
            if s.ok {
                let c = refsol::sound(&s.prim_after, x.gamma, &p.c_iso);
                let sc = p.scales(&s.prim_after, &c);
                let mut d = (q.dt - s.dt).abs() / s.dt;
                for j in 0..x.e() {
                    for i in 0..x.s {
                        d = d.max((q.cons_after[j][i] - s.cons_after[j][i]).abs() / sc[j]);
                    }
                }
                tol = tol.max(200.0 * d);
            }
            if !(tol < 1e-5) {
                if k >= 2 {
                    cx.nontrivial();
                    cx.label("compared until ill-conditioned");
                    return Ok(());
                }
                return discard("ill-conditioned");
            }
        }
        if undecided(x, &s.prim_before) {
            return discard("outflow at velocity 0");
        }
        if x.asc.is_some() && s.evals > 2 * x.rk.stages() as u64 && k > 0 {
            // the first rejection looks back at the error of the previous step, and errors carry rounding
            let [rt, at, friction] = x.asc.unwrap();
            let c = refsol::sound(&s.prim_before, x.gamma, &p.c_iso);
            let sc = p.scales(&s.prim_before, &c);
            let mut nu = 0.0f64;
            for j in 0..x.e() {
                for i in 2..x.s - 2 {
                    nu = nu.max(1e-14 * sc[j] / (rt * (s.cons_before[j][i].abs() + at)));
                }
            }
            let err = err_of(x, &p, &a.1[k - 1], a.1[k - 1].dt);
            tol = tol.max(10.0 * nu + 10.0 * friction * nu / err);
            if !(tol < 1e-6) {
                return discard("step control looks at rounding errors");
            }
        }
        if !exact {
            if s.evals != t.evals {
                return discard("rounding decides whether a step is tolerated");
            }
            if s.ok != t.ok {
                return discard("rounding decides whether a step fails");
            }
        }
        need!(s.ok == t.ok, "step {k}: success is {}, {what} {}", s.ok, t.ok);
        if !s.ok {
            break;
        }
        need!(s.evals == t.evals, "step {k} takes {} evaluations, {what} {}", s.evals, t.evals);
        let dt = tmap(s.dt);
        need!(
            (t.dt - dt).abs() <= tol * dt.abs() + 1e-15 * tmap(s.t_after).abs(),
            "step {k}: dt = {:e}, {what} {:e} instead of {dt:e}",
            s.dt,
            t.dt
        );
        let c = refsol::sound(&s.prim_after, x.gamma, &p.c_iso);
        let sc = p.scales(&s.prim_after, &c);
        let one: V2 = sc.iter().map(|v| vec![*v; x.s]).collect();
        for j in 0..x.e() {
            let want = map(j, &s.cons_after);
            let size = map(j, &one)[0].abs();
            for i in 0..x.s {
                need!(
                    (t.cons_after[j][i] - want[i]).abs() <= tol * size * (1.0 + k as f64),
                    "step {k}: conservative variable {j} in cell {i} is {:e}, but {:e} was expected {what} \
                     (tolerance {:e})",
                    t.cons_after[j][i],
                    want[i],
                    tol * size * (1.0 + k as f64)
                );
            }
        }
    }
    if !exact && shaken.as_ref().map(|v| v.len()) != Some(a.1.len()) {
        return discard("ill-conditioned");
    }
    need!(
        a.1.len() == b.1.len(),
        "the run takes {} steps, {what} {}",
        a.1.len(),
        b.1.len()
    );
    cx.label(x.fx.name());
    cx.label(format!("{:?}", x.rk));
    cx.label(if a.0.is_ok() { "run succeeded" } else { "run failed" });
    if x.asc.is_some() {
        cx.label("asc");
        if a.1.iter().any(|s| s.evals > 2 * x.rk.stages() as u64) {
            cx.label("asc with rejections");
        }
    }
    if n >= 2 {
        cx.nontrivial();
    }
    Ok(())
}

pub fn c10() -> Property {
    let strat = || {
        scn(Opt {
            asc: true,
            steps: 12.0,
            amp: 1.5,
            mach: 2.5,
            sizes: MEDIUM,
            ..Opt::default()
        })
        .prop_map(|mut x| {
            x.iter_max = 60;
            x
        })
    };
    let oracle = |x: &Scn, cx: &mut Cx| -> Res {
        let (r1, rec1, _) = run_rec(x, 2)?;
        let (r2, rec2, _) = run_rec(&mirrored(x), 2)?;
        let mut z = x.clone();
        for (i, c) in z.cells.iter_mut().enumerate() {
            let f = |k: usize| 1.0 + 1e-13 * (((i * 7 + k * 5) % 11) as f64 - 5.0) / 5.0;
            *c = [c[0] * f(0), c[1] + x.speed() * (f(1) - 1.0), c[2] * f(2)];
        }
        let (_, rec3, _) = run_rec(&z, 2)?;
        let map = |j: usize, v: &V2| -> Vec<f64> {
            v[j].iter().rev().map(|w| if j == 1 { -w } else { *w }).collect()
        };
        cmp_runs(x, (r1, rec1), (r2, rec2), &map, &|t| t, 1e-11, "mirrored", Some(rec3), cx)
    };
    Property {
        id: "C10",
        rule: "at least two steps of a run and its mirror image compared",
        parts: vec![part("mirror", 12_000, 240_000, strat, oracle)],
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct UnitCase {
    x: Scn,
    l: i32,
    t: i32,
    r: i32,
}

pub fn c11() -> Property {
    let strat = || {
        let e = || prop_oneof![2 => -6i32..=6, 2 => -40i32..=40, 1 => -80i32..=80];
        let o = Opt {
            steps: 12.0,
            amp: 1.5,
            mach: 2.5,
            sizes: MEDIUM,
            ..Opt::default()
        };
        (scn(o), e(), e(), e(), prop_oneof![2 => Just(f64::INFINITY), 1 => 0.3f64..1.5]).prop_map(
            |(mut x, l, t, r, lim)| {
                if lim.is_finite() {
                    x.dt_max = lim * x.cfl * x.dx() / x.speed();
                }
                x.iter_max = 80;
                UnitCase { x, l, t, r }
            },
        )
    };
    let oracle = |c: &UnitCase, cx: &mut Cx| -> Res {
        let x = &c.x;
        let (l, t, r) = (2f64.powi(c.l), 2f64.powi(c.t), 2f64.powi(c.r));
        let mut y = x.clone();
        y.xi_in *= l;
        y.xi_out *= l;
        y.t0 *= t;
        y.t_end *= t;
        y.dt_min *= t;
        if y.dt_max < f64::MAX {
            y.dt_max *= t;
        }
        let v = l / t;
        for q in y.cells.iter_mut() {
            *q = [q[0] * r, q[1] * v, if x.ad { q[2] * r * v * v } else { q[2] * v }];
        }
        let (r1, rec1, _) = run_rec(x, 2)?;
        let (r2, rec2, _) = run_rec(&y, 2)?;
        let f = [r, r * v, r * v * v];
        let map = |j: usize, w: &V2| -> Vec<f64> { w[j].iter().map(|q| q * f[j]).collect() };
        cmp_runs(x, (r1, rec1), (r2, rec2), &map, &|s| s * t, 1e-12, "rescaled", None, cx)
    };
    Property {
        id: "C11",
        rule: "at least two steps of a run and its rescaled image compared",
        parts: vec![part("units", 30_000, 600_000, strat, oracle)],
    }
}


// =====================================================================================================================
// C35 contact discontinuities
// =====================================================================================================================

pub fn c35() -> Property {
    let strat = || {
        let o = Opt {
            amp: 2.0,
            asc: true,
            steps: 15.0,
            long: 200.0,
            jumps: 4.0,
            ..Opt::default()
        };
        let m = prop_oneof![1 => Just(0.0), 4 => -2.0f64..2.0, 1 => -30.0f64..30.0];
        (scn(o), m, 0u8..6, 0u8..6, any::<bool>(), logu(1e-4, 1e4)).prop_map(|(mut x, m, kw, ke, slow, press)| {
            // the same pressure and velocity everywhere; sound speeds stay as they are at one place
            let (rho, c) = (x.cells[2][0], x.c_of(&x.cells[2]));
            x.ad = true;
            let p = rho * c * c / x.gamma * press;
            let c = c * press.sqrt();
            let v = m * c;
            for q in x.cells.iter_mut() {
                q[1] = v;
                q[2] = p;
            }
            // reconstruction without or with a weak limiter amplifies rounding errors in the long run, extrapolation too
            let calm = x.fx.is_hll();
            let mk = |k: u8, out: bool| {
                let vb = match k {
                    1 if calm => Bm::Extrapolate,
                    2 if out => Bm::OutflowNoGradients,
                    3 if out && calm => Bm::OutflowExtrapolate,
                    4 if v == 0.0 => Bm::Reflecting,
                    _ => Bm::NoGradients,
                };
                let pb = if k % 2 == 0 || !calm { Bm::NoGradients } else { Bm::Extrapolate };
                if k == 0 {
                    None
                } else {
                    Some(vec![(0, Bm::NoGradients), (1, vb), (2, pb)])
                }
            };
            x.bcw = mk(kw, v < 0.0);
            x.bce = mk(ke, v > 0.0);
            if slow {
                x.cfl = x.cfl.min(0.5);
            }
            // durations were made for the old state
            let old = (x.t_end - x.t0) / 15.0;
            let dt = x.cfl * x.dx() / x.speed();
            let n = (old / dt).clamp(1.5, if x.s <= 9 && calm { 200.0 } else { 15.0 });
            x.t0 = 0.0;
            x.t_end = n * dt;
            x.dt_min = 1e-9 * dt;
            if x.asc.is_some() {
                x.iter_max = 200;
            }
            x
        })
    };
    let oracle = |x: &Scn, cx: &mut Cx| -> Res {
        let (r, rec, _) = run_rec(x, 2)?;
        let (v, p) = (x.cells[2][1], x.cells[2][2]);
        let calm = x.fx.is_hll();
        let ssp = matches!(x.rk, Rk::RK1 | Rk::Heun2 | Rk::SSPRK3) && calm && x.cfl <= 0.5;
        let inner = |q: &V2| -> Vec<f64> { q[0][2..q[0].len() - 2].to_vec() };
        let variation = |q: &[f64]| -> f64 { q.windows(2).map(|w| (w[1] - w[0]).abs()).sum() };
        let Some(first) = rec.first() else { return discard("no step") };
        let d0 = inner(&first.prim_before);
        let (lo, hi) = d0.iter().fold((f64::MAX, 0.0f64), |(a, b), q| (a.min(*q), b.max(*q)));
        let mut evals = 0;
        let mut moved = false;
        for (k, s) in rec.iter().enumerate() {
            if !s.ok {
                break;
            }
            evals += s.evals;
            let rho = &s.prim_after[0];
            let big = rho.iter().fold(hi, |a, q| a.max(*q));
            let small = rho.iter().fold(lo, |a, q| a.min(*q));
            let a = v.abs() + (x.gamma * p / small).sqrt();
            // the limiters and long steps amplify rounding errors
            let growth = if calm { 10.0 } else { 50.0 * 2.5f64.powi(k as i32) };
            let eps = 4e-15 * (20.0 + 4.0 * evals as f64) * growth;
            // oscillating schemes are not judged once they have left the range of densities
            if small < 0.1 * lo || big > 10.0 * hi {
                return discard("unstable scheme");
            }
            if eps * big / small > 1e-5 {
                if k == 0 {
                    return discard("density ratio too large");
                }
                cx.label("judged in part");
                break;
            }
            for i in 2..x.s - 2 {
                let (m, q) = (s.cons_after[1][i], s.prim_after[2][i]);
                need!(
                    (m - rho[i] * v).abs() <= eps * big * a,
                    "step {k}: the momentum in cell {i} is {m:e} instead of {:e} (velocity {v:e} everywhere)",
                    rho[i] * v
                );
                need!(
                    (q - p).abs() <= eps * big * a * a,
                    "step {k}: the pressure in cell {i} is {q:e} instead of {p:e} as everywhere"
                );
            }
            let (d, e) = (inner(&s.prim_before), inner(&s.prim_after));
            moved |= d.iter().zip(&e).any(|(a, b)| a != b);
            if ssp {
                for (i, q) in e.iter().enumerate() {
                    need!(
                        *q >= lo - eps * big && *q <= hi + eps * big,
                        "step {k}: the density in cell {} is {q:e}, outside of its initial range from {lo:e} to {hi:e}",
                        i + 2
                    );
                }
                let (u, w) = (variation(&d), variation(&e));
                need!(
                    w <= u + eps * big * x.s as f64,
                    "step {k}: the total variation of the transported density grows from {u:e} to {w:e}"
                );
                cx.label("bounds judged");
            }
        }
        if let Err(e) = &r {
            if x.asc.is_none() && x.fx.is_hll() && ssp && rec.len() < x.iter_max {
                return fail(format!("transport of a density profile fails: {e}"));
            }
            cx.label("run failed");
        }
        cx.label(x.fx.name());
        cx.label(format!("{:?}", x.rk));
        cx.label(if v == 0.0 { "at rest" } else { "moving" });
        if rec.len() >= 2 && (moved || v == 0.0) && hi > lo {
            cx.nontrivial();
        }
        Ok(())
    };
    Property {
        id: "C35",
        rule: "at least two steps of a gas of uniform velocity and pressure with different densities",
        parts: vec![part("contact", 12_000, 250_000, strat, oracle)],
    }
}

// =====================================================================================================================
// C36 shifts in space and time
// =====================================================================================================================

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ShiftCase {
    x: Scn,
    /// exponent of the cell width
    k: i32,
    /// place of the profile in both meshes
    at: [f64; 2],
    sizes: [usize; 2],
    steps: usize,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MoveCase {
    x: Scn,
    k: i32,
    /// inner edges in units of the cell width
    edges: [i32; 2],
    quarter: u8,
}

/// Puts a scenario on a mesh whose coordinates are exact
fn exact_mesh(x: &mut Scn, k: i32, edge: f64) {
    let (dx, old) = (2f64.powi(k), x.dx());
    let f = dx / old;
    x.xi_in = edge * dx;
    x.xi_out = x.xi_in + (x.s - 4) as f64 * dx;
    x.t0 *= f;
    x.t_end *= f;
    x.dt_min *= f;
    if x.dt_max < f64::MAX {
        x.dt_max *= f;
    }
}

fn no_kepler(b: &mut Bc) {
    for (_, m) in b.iter_mut().flatten() {
        if m.is_kepler() {
            *m = Bm::NoGradients;
        }
    }
}

pub fn c36() -> Property {
    // the same profile at different places of meshes of different sizes
    let cstrat = || {
        let o = Opt {
            amp: 1.0,
            mach: 1.5,
            plain_bc: true,
            asc: true,
            sizes: SMALL,
            ..Opt::default()
        };
        let size = || proptest::sample::select(&[68usize, 100, 132, 132, 260, 515, 1030][..]);
        (scn(o), -12i32..12, [0.0f64..1.0, 0.0f64..1.0], [size(), size()], 1usize..6).prop_map(
            |(mut x, k, at, sizes, steps)| {
                exact_mesh(&mut x, k, 3.25);
                x.t_end = x.t0 + 1e3 * (x.t_end - x.t0);
                ShiftCase { x, k, at, sizes, steps }
            },
        )
    };
    let coracle = |c: &ShiftCase, cx: &mut Cx| -> Res {
        let n = c.x.s;
        let w = if c.x.fx.is_hll() { 1 } else { 2 };
        let reach = c.x.rk.stages() * w;
        let mut sims = vec![];
        let mut starts = vec![];
        let mut steps = c.steps;
        for q in 0..2 {
            let s = c.sizes[q];
            // keep a distance from the edges
            let room = s - 4 - n;
            let pad = (reach * c.steps + 2).min(room / 2);
            let start = 2 + pad + (c.at[q] * (room - 2 * pad) as f64) as usize;
            steps = steps.min(pad.saturating_sub(2) / reach);
            let mut y = c.x.clone();
            y.s = s;
            y.xi_out = y.xi_in + (s - 4) as f64 * 2f64.powi(c.k);
            y.cells = (0..s).map(|i| c.x.cells[(i.max(start) - start).min(n - 1)]).collect();
            let mut sim = y.build()?;
            sim.ts().t_next_output = f64::MAX;
            sims.push(sim);
            starts.push(start as i64);
        }
        if steps == 0 {
            return discard("no room");
        }
        let shift = starts[1] - starts[0];
        for k in 1..=steps {
            let r: Vec<bool> = sims.iter_mut().map(|s| s.step().is_ok()).collect();
            need!(r[0] == r[1], "step {k}: success is {}, elsewhere {}", r[0], r[1]);
            if !r[0] {
                break;
            }
            let dt: Vec<f64> = sims.iter_mut().map(|s| s.ts().dt).collect();
            need!(
                dt[0].to_bits() == dt[1].to_bits(),
                "step {k}: dt = {:e}, with the profile at another place {:e}",
                dt[0],
                dt[1]
            );
            let (a, b) = (sims[0].vars(D::Cent), sims[1].vars(D::Cent));
            for j in 0..c.x.e() {
                for i in 2..c.sizes[0] as i64 - 2 {
                    let m = (i + shift).clamp(2, c.sizes[1] as i64 - 3);
                    // beyond the profile and its influence all cells are alike
                    let (p, q) = (a.prim[j][i as usize], b.prim[j][m as usize]);
                    let (u, v) = (a.cons[j][i as usize], b.cons[j][m as usize]);
                    need!(
                        p.to_bits() == q.to_bits() && u.to_bits() == v.to_bits(),
                        "step {k}: variable {j} is {p:e} (conservative {u:e}) in cell {i}, but {q:e} ({v:e}) in cell {m} \
                         with the profile shifted by {shift} cells"
                    );
                }
            }
        }
        cx.label(c.x.fx.name());
        cx.label(format!("{:?}", c.x.rk));
        cx.label(if c.sizes[0] == c.sizes[1] { "same size" } else { "other size" });
        if shift != 0 || c.sizes[0] != c.sizes[1] {
            cx.nontrivial();
        }
        Ok(())
    };
    // the domain elsewhere
    let mstrat = || {
        let o = Opt {
            amp: 1.5,
            mach: 2.0,
            asc: true,
            steps: 12.0,
            ..Opt::default()
        };
        let edge = || prop_oneof![3 => 4i32..100, 2 => -2000i32..-4, 1 => 1000i32..1_000_000];
        (scn(o), -12i32..12, [edge(), edge()], prop_oneof![Just(1u8), Just(3)]).prop_map(|(mut x, k, edges, quarter)| {
            no_kepler(&mut x.bcw);
            no_kepler(&mut x.bce);
            x.iter_max = 60;
            MoveCase { x, k, edges, quarter }
        })
    };
    let moracle = |c: &MoveCase, cx: &mut Cx| -> Res {
        let mut runs = vec![];
        for e in c.edges {
            let mut x = c.x.clone();
            exact_mesh(&mut x, c.k, e as f64 + 0.25 * c.quarter as f64);
            runs.push(run_rec(&x, 2)?);
        }
        let (a, b) = (&runs[0], &runs[1]);
        need!(a.1.len() == b.1.len(), "{} steps, elsewhere {}", a.1.len(), b.1.len());
        for (k, (s, t)) in a.1.iter().zip(&b.1).enumerate() {
            need!(
                s.dt.to_bits() == t.dt.to_bits() && s.t_after.to_bits() == t.t_after.to_bits() && s.ok == t.ok,
                "step {k} to t = {:e} with dt = {:e}; in a domain elsewhere to {:e} with {:e}",
                s.t_after,
                s.dt,
                t.t_after,
                t.dt
            );
            need!(
                !s.ok || same_bits(&s.cons_after, &t.cons_after) && same_bits(&s.prim_after, &t.prim_after),
                "the state after step {k} depends on the coordinates of the domain"
            );
        }
        need!(a.0.is_ok() == b.0.is_ok(), "the result depends on the coordinates of the domain");
        cx.label(c.x.fx.name());
        cx.label(format!("{:?}", c.x.rk));
        if a.1.len() > 1 && c.edges[0] != c.edges[1] {
            cx.nontrivial();
        }
        Ok(())
    };
    // another start time
    let tstrat = || {
        let o = Opt {
            amp: 1.5,
            mach: 2.0,
            asc: true,
            steps: 12.0,
            sizes: MEDIUM,
            ..Opt::default()
        };
        (scn(o), 0.0f64..100.0).prop_map(|(mut x, t)| {
            let dur = x.t_end - x.t0;
            x.t0 = t * dur;
            x.t_end = x.t0 + dur;
            x.iter_max = 60;
            x
        })
    };
    let toracle = |x: &Scn, cx: &mut Cx| -> Res {
        let (r1, rec1, _) = run_rec(x, 2)?;
        let mut y = x.clone();
        y.t0 = 0.0;
        y.t_end = x.t_end - x.t0;
        let (r2, rec2, _) = run_rec(&y, 2)?;
        let mut z = x.clone();
        for (i, c) in z.cells.iter_mut().enumerate() {
            let f = |k: usize| 1.0 + 1e-13 * (((i * 7 + k * 5) % 11) as f64 - 5.0) / 5.0;
            *c = [c[0] * f(0), c[1] + x.speed() * (f(1) - 1.0), c[2] * f(2)];
        }
        let (_, rec3, _) = run_rec(&z, 2)?;
        let map = |j: usize, v: &V2| -> Vec<f64> { v[j].clone() };
        cmp_runs(x, (r1, rec1), (r2, rec2), &map, &|t| t, 1e-11, "starting at t = 0", Some(rec3), cx)
    };
    Property {
        id: "C36",
        rule: "a step with the profile elsewhere, or at least two steps in a domain elsewhere or starting at another time",
        parts: vec![
            part("profile", 12_000, 250_000, cstrat, coracle),
            part("domain", 12_000, 250_000, mstrat, moracle),
            part("time", 6_000, 120_000, tstrat, toracle),
        ],
    }
}

// =====================================================================================================================
// C37 physics of the user
// =====================================================================================================================

#[derive(Clone, Debug, Serialize, Deserialize)]
struct WideCase {
    x: Scn,
    /// passive velocity per cell
    eta: Vec<f64>,
    eta_bc: [Bm; 2],
    /// the passive velocity is scaled with this power of two
    k: i32,
}

/// The same boundary condition for the equations of the wide system
fn wide_bc(b: &Bc, ad: bool, eta: Bm, order: bool) -> Bc {
    b.as_ref().map(|v| {
        let mut w: Vec<(usize, Bm)> = v.iter().map(|&(j, m)| (sim::wide_rows(ad)[j], m)).collect();
        if order {
            w.push((sim::wide_eta(ad), eta));
        } else {
            w.insert(0, (sim::wide_eta(ad), eta));
        }
        w
    })
}

fn wide_run(c: &WideCase, eta: &[f64]) -> Res<(Result<(), String>, Vec<StepRec>, Box<dyn Sim>, sim::Snap)> {
    let mut y = c.x.clone();
    y.bcw = wide_bc(&c.x.bcw, c.x.ad, c.eta_bc[0], c.k % 2 == 0);
    y.bce = wide_bc(&c.x.bce, c.x.ad, c.eta_bc[1], c.k % 3 == 0);
    let mut s = match sim::build_wide(&y.conf(), c.x.ad, c.x.s, c.x.init(), eta) {
        Ok(s) => s,
        Err(e) => return fail(format!("valid configuration rejected: {}", sim::errstr(&e))),
    };
    let start = s.vars(crate::sim::D::Cent);
    sim::record(2);
    let r = s.run().map_err(|e| sim::errstr(&e));
    let rec = sim::take_record();
    sim::record(0);
    Ok((r, rec, s, start))
}

pub fn c37() -> Property {
    let strat = || {
        let o = Opt {
            amp: 1.5,
            mach: 2.0,
            asc: true,
            steps: 15.0,
            sizes: &sim::WIDE_SIZES,
            ..Opt::default()
        };
        let mode = || prop_oneof![3 => Just(Bm::NoGradients), 2 => proptest::sample::select(&ALL_BM[..])];
        let kind = prop_oneof![1 => Just(0u8), 2 => Just(1), 3 => Just(2)];
        (scn(o), kind, proptest::collection::vec(-1.0f64..1.0, 20), logu(1e-3, 1e3), [mode(), mode()], -20i32..20).prop_map(
            |(mut x, kind, raw, f, mut eta_bc, k)| {
                if x.xi_in < 2.0 * x.dx() {
                    // Kepler's law is about positive coordinates
                    for m in eta_bc.iter_mut().filter(|m| m.is_kepler()) {
                        *m = Bm::NoGradients;
                    }
                }
                let v = x.speed() * f;
                let eta: Vec<f64> = (0..x.s)
                    .map(|i| match kind {
                        0 => 0.0,
                        1 => v * raw[0],
                        _ => v * raw[i % 20],
                    })
                    .collect();
                if kind != 0 {
                    // the passive velocity takes part in the step control
                    x.asc = None;
                }
                x.iter_max = 80;
                WideCase { x, eta, eta_bc, k }
            },
        )
    };
    let oracle = |c: &WideCase, cx: &mut Cx| -> Res {
        let x = &c.x;
        let (rows, je) = (sim::wide_rows(x.ad), sim::wide_eta(x.ad));
        let (r0, rec0, _) = run_rec(x, 2)?;
        let (r1, rec1, s1, start) = wide_run(c, &c.eta)?;
        // the accessors give the right rows
        let acc = s1.accessors(crate::sim::D::Cent);
        let v = s1.vars(crate::sim::D::Cent);
        let zero = vec![0.0; x.s];
        let p = |m: &V2| if x.ad { m[1].clone() } else { zero.clone() };
        let (jr, jx) = (rows[0], rows[1]);
        let want = [
            ("rho_prim", v.prim[jr].clone()),
            ("rho_cons", v.cons[jr].clone()),
            ("xi_vel", v.prim[jx].clone()),
            ("xi_mom", v.cons[jx].clone()),
            ("eta_vel", v.prim[je].clone()),
            ("eta_mom", v.cons[je].clone()),
            ("pressure", p(&v.prim)),
            ("energy", p(&v.cons)),
        ];
        for (a, (n, w)) in acc.iter().zip(&want) {
            need!(sim::same_bits1(a, w), "{n} of a system with another order of equations is another variable");
        }
        // the further equation changes nothing for the others
        need!(rec0.len() == rec1.len(), "{} steps instead of {}", rec1.len(), rec0.len());
        for (k, (a, b)) in rec0.iter().zip(&rec1).enumerate() {
            need!(
                a.ok == b.ok && a.dt.to_bits() == b.dt.to_bits() && a.t_after.to_bits() == b.t_after.to_bits(),
                "step {k}: dt = {:e} to t = {:e} (success {}) instead of dt = {:e} to t = {:e} (success {})",
                b.dt,
                b.t_after,
                b.ok,
                a.dt,
                a.t_after,
                a.ok
            );
            if !a.ok {
                break;
            }
            for (j, &w) in rows.iter().enumerate() {
                need!(
                    sim::same_bits1(&a.prim_after[j], &b.prim_after[w]) && sim::same_bits1(&a.cons_after[j], &b.cons_after[w]),
                    "step {k}: variable {j} differs when it is equation {w} of a larger system"
                );
            }
            need!(sim::same_bits1(&a.c_after, &b.c_after), "step {k}: the sound speed differs in a larger system");
        }
        need!(r0.is_ok() == r1.is_ok(), "result {r1:?} instead of {r0:?}");
        // a uniform passive velocity stays uniform
        let moving = c.eta[0] != 0.0;
        let uniform = c.eta.iter().all(|v| *v == c.eta[0]);
        if uniform && c.eta_bc.iter().all(|m| *m == Bm::NoGradients) {
            for (k, b) in rec1.iter().enumerate().filter(|b| b.1.ok) {
                let d = &b.prim_after[jr];
                let big = maxabs(d).max(maxabs(&b.prim_before[jr])).max(maxabs(&start.prim[jr]));
                // limiters and unstable combinations amplify rounding errors
                let growth = if x.fx.is_hll() { 10.0 } else { 10.0 * 2.5f64.powi(k.min(100) as i32) };
                if 1e-12 * growth > 1e-6 {
                    break;
                }
                for i in 2..x.s - 2 {
                    let tol = 1e-12 * growth * (k + 2) as f64 * c.eta[0].abs() * big / d[i].abs();
                    need!(
                        (b.prim_after[je][i] - c.eta[0]).abs() <= tol,
                        "step {k}: the uniform passive velocity {:e} becomes {:e} in cell {i}",
                        c.eta[0],
                        b.prim_after[je][i]
                    );
                }
            }
            cx.label("uniform");
        }
        // twice the passive velocity
        if moving {
            let f = 2f64.powi(c.k);
            let scaled: Vec<f64> = c.eta.iter().map(|v| v * f).collect();
            let (r2, rec2, _, _) = wide_run(c, &scaled)?;
            need!(r2.is_ok() == r1.is_ok() && rec1.len() == rec2.len(), "the passive velocity changes the result of the run");
            for (k, (a, b)) in rec1.iter().zip(&rec2).enumerate() {
                if !a.ok {
                    break;
                }
                for w in 0..a.prim_after.len() {
                    let g = if w == je { f } else { 1.0 };
                    let same = |p: &V2, q: &V2| p[w].iter().zip(&q[w]).all(|(u, v)| (u * g).to_bits() == v.to_bits());
                    need!(
                        same(&a.prim_after, &b.prim_after) && same(&a.cons_after, &b.cons_after),
                        "step {k}: equation {w} does not scale with the passive velocity ({f:e})"
                    );
                }
            }
            cx.label(if uniform { "uniform motion" } else { "any motion" });
        } else {
            cx.label("no motion");
        }
        cx.label(x.fx.name());
        cx.label(format!("{:?}", x.rk));
        cx.label(if x.ad { "adiabatic" } else { "isothermal" });
        if !rec1.is_empty() {
            cx.nontrivial();
        }
        Ok(())
    };
    Property {
        id: "C37",
        rule: "runs of at least one step",
        parts: vec![part("wide", 16_000, 300_000, strat, oracle)],
    }
}
