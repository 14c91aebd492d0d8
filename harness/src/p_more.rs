//! Guarantees across modules: no panics, limits of the equations, extension points

use crate::engine::*;
use crate::exact::{Gas, Riemann, W};
use crate::gen::*;
use crate::need;
use crate::p_io::{case_with, fresh, Col, IoCase};
use crate::refsol;
use crate::sim::{self, Lin, StepRec, UserTimeMode, V2};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

// =====================================================================================================================
// C41 no panics, no endless runs
// =====================================================================================================================

/// A value far away from the usual ones
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Far {
    Nan,
    Inf,
    NegInf,
    Zero,
    NegZero,
    Times(f64),
    Value(f64),
}
impl Far {
    fn of(&self, v: f64) -> f64 {
        match *self {
            Far::Nan => f64::NAN,
            Far::Inf => f64::INFINITY,
            Far::NegInf => f64::NEG_INFINITY,
            Far::Zero => 0.0,
            Far::NegZero => -0.0,
            Far::Times(f) => v * f,
            Far::Value(x) => x,
        }
    }
}
fn far() -> impl Strategy<Value = Far> {
    let sign = || prop_oneof![3 => Just(1.0f64), 1 => Just(-1.0)];
    prop_oneof![
        1 => Just(Far::Nan),
        1 => Just(Far::Inf),
        1 => Just(Far::NegInf),
        1 => Just(Far::Zero),
        1 => Just(Far::NegZero),
        4 => (sign(), -300.0f64..300.0).prop_map(|(s, e)| Far::Times(s * 10f64.powf(e))),
        2 => (sign(), -20.0f64..20.0).prop_map(|(s, e)| Far::Times(s * 10f64.powf(e))),
        2 => (sign(), prop_oneof![Just(f64::MAX), Just(f64::MIN_POSITIVE), Just(5e-324), Just(1.0), Just(1e154), Just(1e-154)])
            .prop_map(|(s, v)| Far::Value(s * v)),
    ]
}

/// What is changed in a usual case
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Change {
    /// one variable of one cell
    Cell(usize, usize, Far),
    /// one variable of all cells
    Cells(usize, Far),
    Gamma(f64),
    Domain(f64, f64),
    Cfl(f64),
    DtMin(f64),
    DtMax(f64),
    /// start, duration
    Times(f64, f64),
    Outputs(usize),
    IterMax(usize),
    Tolerances(f64, f64, f64),
    Theta(f64),
    Boundaries(u64, u64),
    Precision(usize),
    Ghosts,
}

fn change() -> impl Strategy<Value = Change> {
    let ten = |lo: f64, hi: f64| (lo..hi).prop_map(|e: f64| 10f64.powf(e));
    prop_oneof![
        4 => (0usize..17, 0usize..3, far()).prop_map(|(i, j, f)| Change::Cell(i, j, f)),
        2 => (0usize..3, far()).prop_map(|(j, f)| Change::Cells(j, f)),
        1 => prop_oneof![Just(1.0 + 3e-16), Just(2.0 - 3e-16), 1.0001f64..1.9999].prop_map(Change::Gamma),
        1 => (prop_oneof![ten(-150.0, 150.0), ten(-2.0, 2.0).prop_map(|x| -x)], ten(-9.0, 9.0)).prop_map(|(a, w)| Change::Domain(a, w)),
        1 => ten(-12.0, 300.0).prop_map(Change::Cfl),
        1 => ten(-300.0, 300.0).prop_map(Change::DtMin),
        1 => ten(-300.0, 300.0).prop_map(Change::DtMax),
        1 => (prop_oneof![Just(0.0), ten(-300.0, 300.0)], ten(-300.0, 300.0)).prop_map(|(a, b)| Change::Times(a, b)),
        2 => prop_oneof![0usize..3, 20usize..60, (2u32..19).prop_map(|k| 10usize.pow(k)), Just(usize::MAX)].prop_map(Change::Outputs),
        1 => prop_oneof![3 => 1usize..4, 1 => Just(usize::MAX)].prop_map(Change::IterMax),
        1 => (ten(-300.0, 300.0), ten(-300.0, 300.0), prop_oneof![-2.0f64..2.0, ten(-300.0, 300.0)])
            .prop_map(|(a, b, c)| Change::Tolerances(a, b, c)),
        1 => prop_oneof![Just(1.0 + 3e-16), ten(0.01, 300.0)].prop_map(Change::Theta),
        1 => (any::<u64>(), any::<u64>()).prop_map(|(a, b)| Change::Boundaries(a, b)),
        1 => prop_oneof![50usize..1000, 1000usize..200_000].prop_map(Change::Precision),
        1 => Just(Change::Ghosts),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct WildCase {
    c: IoCase,
    changes: Vec<Change>,
}

pub fn c41() -> Property {
    let strat = || {
        (case_with(0..3, false, 4.0), proptest::collection::vec(change(), 1..5)).prop_map(|(mut c, changes)| {
            c.x.n_out = c.x.n_out.min(20);
            c.x.iter_max = 60;
            WildCase { c, changes }
        })
    };
    let oracle = |q: &WildCase, cx: &mut Cx| -> Res {
        let mut c = q.c.clone();
        let x = &mut c.x;
        let duration = x.t_end - x.t0;
        for ch in &q.changes {
            match *ch {
                Change::Cell(i, j, f) => {
                    let (i, j) = (i % x.s, j);
                    x.cells[i][j] = f.of(x.cells[i][j]);
                    cx.label(match f {
                        Far::Nan | Far::Inf | Far::NegInf => "non-finite cell",
                        Far::Zero | Far::NegZero => "zero",
                        _ => "far cell",
                    });
                },
                Change::Cells(j, f) => {
                    for cell in x.cells.iter_mut() {
                        cell[j] = f.of(cell[j]);
                    }
                    cx.label("far state");
                },
                Change::Gamma(g) => {
                    x.gamma = g;
                    cx.label("gamma");
                },
                Change::Domain(a, w) => {
                    let w = w * a.abs();
                    if a + w > a {
                        x.xi_in = a;
                        x.xi_out = a + w;
                    }
                    cx.label("domain");
                },
                Change::Cfl(v) => {
                    x.cfl = v;
                    cx.label("cfl");
                },
                Change::DtMin(v) => {
                    x.dt_min = v;
                    cx.label("dt_min");
                },
                Change::DtMax(v) => {
                    x.dt_max = v;
                    cx.label("dt_max");
                },
                Change::Times(a, b) => {
                    let (t0, t1) = (duration * a, duration * a + duration * b);
                    if t1.is_finite() && t1 > t0 {
                        (x.t0, x.t_end) = (t0, t1);
                    }
                    cx.label("times");
                },
                Change::Outputs(n) => {
                    x.n_out = n;
                    cx.label(if n < 100 { "outputs" } else { "very many outputs" });
                },
                Change::IterMax(n) => {
                    // without a limit only runs that end by themselves
                    if n < 100 || q.changes.len() == 1 {
                        x.iter_max = n;
                    }
                    cx.label("iter_max");
                },
                Change::Tolerances(r, a, f) => {
                    if x.rk.has_asc() {
                        x.asc = Some([r, a, f]);
                    }
                    cx.label("tolerances");
                },
                Change::Theta(t) => {
                    x.fx = Fx::Monocent(t);
                    cx.label("theta");
                },
                Change::Boundaries(mut a, mut b) => {
                    let e = x.e();
                    let mut draw = |r: &mut u64| {
                        let n = (*r % 5) as usize;
                        *r /= 5;
                        (0..n)
                            .map(|_| {
                                let j = (*r % e as u64) as usize;
                                let m = ALL_BM[(*r / 3 % 8) as usize];
                                *r /= 24;
                                (j, m)
                            })
                            .collect()
                    };
                    x.bcw = Some(draw(&mut a));
                    x.bce = Some(draw(&mut b));
                    cx.label("boundaries");
                },
                Change::Precision(p) => {
                    for s in c.streams.iter_mut() {
                        s.precision = p;
                        // do not fill the disk
                        s.cols.truncate(2);
                    }
                    cx.label(if p <= u16::MAX as usize { "precision" } else { "unprintable precision" });
                },
                Change::Ghosts => {
                    for s in c.streams.iter_mut() {
                        s.ghost = true;
                    }
                },
            }
        }
        if c.streams.iter().any(|s| s.precision > 100) {
            c.x.n_out = c.x.n_out.min(2);
            for s in c.streams.iter_mut() {
                s.cols = vec![if s.scalar { Col::T } else { Col::Prim(0) }];
            }
        }
        sim::set_budget(4_000_000);
        let root = fresh(cx, "w");
        let mut s = match c.build(&root) {
            Ok(s) => s,
            Err(_) => {
                cx.label("rejected");
                return Ok(());
            },
        };
        sim::record(1);
        let r = s.run();
        let rec = sim::take_record();
        need!(
            rec.len() <= c.x.iter_max,
            "{} steps, although at most {} are allowed",
            rec.len(),
            c.x.iter_max
        );
        need!(s.ts().iter <= c.x.iter_max.saturating_add(1), "{} iterations, although at most {} are allowed", s.ts().iter, c.x.iter_max);
        cx.label(match (&r, rec.len()) {
            (Ok(_), 0) => "success without a step",
            (Ok(_), _) => "success",
            (Err(_), 0 | 1) => "error in the first step",
            (Err(_), _) => "error later",
        });
        // whatever happened, the parts can be used further
        let _ = s.step();
        let _ = s.collect();
        if c.x.iter_max < usize::MAX {
            let _ = s.run();
        }
        cx.nontrivial();
        Ok(())
    };
    Property {
        id: "C41",
        rule: "an accepted configuration with at least one extreme setting or state",
        parts: vec![part("wild", 40_000, 800_000, strat, oracle)],
    }
}

// =====================================================================================================================
// C42 linear systems, C43 no new extrema
// =====================================================================================================================

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LinCase {
    /// numerics, mesh and times; its gas is not used
    x: Scn,
    lin: Lin,
    u: V2,
    v: V2,
    f: [f64; 2],
    k: i32,
}

/// Inverse of a well-conditioned matrix
fn invert(m: &V2) -> V2 {
    let n = m.len();
    let mut a: V2 = m
        .iter()
        .enumerate()
        .map(|(i, r)| r.iter().cloned().chain((0..n).map(|j| if i == j { 1.0 } else { 0.0 })).collect())
        .collect();
    for c in 0..n {
        let p = (c..n).max_by(|&i, &j| a[i][c].abs().total_cmp(&a[j][c].abs())).unwrap();
        a.swap(c, p);
        let d = a[c][c];
        a[c].iter_mut().for_each(|v| *v /= d);
        for i in 0..n {
            if i != c {
                let f = a[i][c];
                for k in 0..2 * n {
                    a[i][k] -= f * a[c][k];
                }
            }
        }
    }
    a.into_iter().map(|r| r[n..].to_vec()).collect()
}

/// Initial profiles of `e` variables
fn profile(kind: u8, s: usize, raw: &[f64], scale: f64) -> Vec<f64> {
    (0..s)
        .map(|i| {
            let x = (i as f64 + 0.5) / s as f64;
            scale
                * match kind {
                    0 => raw[0],
                    1 => {
                        if x < 0.5 + 0.4 * raw[1] {
                            raw[0]
                        } else {
                            raw[2]
                        }
                    },
                    2 => raw[0] + raw[1] * (6.283185307179586 * (x * (1.0 + 2.0 * raw[2].abs()) + raw[3])).sin(),
                    3 => raw[0] * x + raw[1],
                    4 => {
                        if i == 2 + ((s - 4) as f64 * raw[1].abs()) as usize {
                            raw[0]
                        } else {
                            0.0
                        }
                    },
                    _ => raw[i % raw.len()],
                }
        })
        .collect()
}

/// `max`: the largest CFL number
fn lin_case(max: f64, es: &'static [usize]) -> impl Strategy<Value = LinCase> {
    let o = Opt {
        sizes: &sim::LINEAR_SIZES,
        steps: 12.0,
        ..Opt::default()
    };
    let head = (scn(o), proptest::sample::select(es), 0u8..10, prop_oneof![1 => Just(1.0), 4 => 0.02f64..1.0]);
    let sys = (
        proptest::collection::vec(-1.0f64..1.0, 5),
        proptest::collection::vec(-1.0f64..1.0, 25),
        proptest::collection::vec(prop_oneof![2 => Just(0i32), 1 => -8i32..9], 5),
        logu(1e-3, 1e3),
    );
    let state = (
        proptest::collection::vec((0u8..7, proptest::collection::vec(-1.0f64..1.0, 23), logu(1e-6, 1e6)), 10),
        [-3.0f64..3.0, -3.0f64..3.0],
        -40i32..40,
    );
    let bcs = proptest::collection::vec(proptest::sample::select(&ALL_BM[..]), 10);
    (head, sys, state, (any::<u8>(), bcs)).prop_map(move |(head, sys, state, (plain, bcs))| {
        let (mut x, e, signs, cfl) = head;
        let (lam, r, qk, speed) = sys;
        let (profiles, f, k) = state;
        let mut lam: Vec<f64> = lam[..e]
            .iter()
            .map(|l| match signs {
                0..=1 => l.abs(),
                2..=3 => -l.abs(),
                4 => lam[0],
                _ => *l,
            })
            .map(|l| speed * if l.abs() < 1e-3 { 0.5 } else { l })
            .collect();
        lam.sort_by(f64::total_cmp);
        let rm: V2 = (0..e)
            .map(|i| (0..e).map(|j| (if i == j { 1.0 } else { 0.0 }) + 0.6 / e as f64 * r[5 * i + j]).collect())
            .collect();
        let ri = invert(&rm);
        let a: V2 = (0..e)
            .map(|i| {
                (0..e)
                    .map(|j| if e == 1 || signs == 4 { if i == j { lam[0] } else { 0.0 } } else { (0..e).map(|k| rm[i][k] * lam[k] * ri[k][j]).sum() })
                    .collect()
            })
            .collect();
        let q: Vec<f64> = qk[..e].iter().map(|k| 2f64.powi(*k)).collect();
        let state = |p: usize| -> V2 {
            (0..e).map(|j| profile(profiles[p + j].0, x.s, &profiles[p + j].1, profiles[p].2 / q[j])).collect()
        };
        let (u, v) = (state(0), state(5));
        let fast = lam.iter().fold(0.0f64, |a, l| a.max(l.abs()));
        let steps = (x.t_end - x.t0) / (x.cfl * x.dx() / x.speed());
        x.cfl = cfl * max;
        let dt = x.cfl * x.dx() / fast;
        let dur = dt * steps;
        x.t0 = if x.t0 > 0.0 { dur * 0.5 } else { 0.0 };
        x.t_end = x.t0 + dur;
        x.dt_min = dt * 1e-9;
        x.asc = None;
        let near_origin = x.xi_in < 2.0 * x.dx();
        let modes = |b: &[Bm]| -> Bc {
            Some(b.iter().enumerate().map(|(j, m)| (j, if near_origin && m.is_kepler() { Bm::Extrapolate } else { *m })).collect())
        };
        x.bcw = if plain % 4 == 0 { None } else { modes(&bcs[..e]) };
        x.bce = if plain % 3 == 0 { None } else { modes(&bcs[5..5 + e]) };
        LinCase { x, lin: Lin { a, lam, q }, u, v, f, k }
    })
}

fn lin_run(c: &LinCase, prim: &V2) -> Res<(Vec<StepRec>, V2)> {
    let mut s = match sim::build_linear(&c.x.conf(), &c.lin, c.x.s, prim) {
        Ok(s) => s,
        Err(e) => return fail(format!("valid configuration rejected: {}", sim::errstr(&e))),
    };
    let start = s.cons();
    sim::record(2);
    let r = s.run();
    let rec = sim::take_record();
    sim::record(0);
    if let Err(e) = r {
        return fail(format!("a linear system cannot be solved: {}", sim::errstr(&e)));
    }
    Ok((rec, start))
}

/// Largest absolute values of the variables
fn sizes(u: &V2) -> Vec<f64> {
    u.iter().map(|r| r.iter().fold(0.0f64, |a, x| a.max(x.abs()))).collect()
}

/// Whether an outflow condition depends on the sign of a value that may be a rounding error
fn undecided(x: &Scn, u: &V2) -> bool {
    let big = u.iter().flatten().fold(0.0f64, |a, v| a.max(v.abs()));
    [(&x.bcw, 2), (&x.bce, x.s - 3)].iter().any(|(b, i)| {
        b.iter().flatten().any(|(j, m)| m.is_outflow() && u[*j][*i].abs() <= 1e-9 * big)
    })
}

/// The right-hand side of the reference, its natural size per equation
fn lin_rhs(c: &LinCase, m: &refsol::RefMesh, cons: &V2) -> (V2, Vec<f64>) {
    let (e, s, x) = (c.lin.lam.len(), c.x.s, &c.x);
    let mut u: V2 = (0..e).map(|j| cons[j].iter().map(|v| v / c.lin.q[j]).collect()).collect();
    refsol::apply_bc(&mut u, &x.bcw, &x.bce, m);
    for j in 0..e {
        u[j].iter_mut().for_each(|v| *v *= c.lin.q[j]);
    }
    let (mut w, mut ea) = (u.clone(), u.clone());
    if !x.fx.is_hll() {
        for j in 0..e {
            for i in 1..s - 1 {
                let l = refsol::limiter(x.fx, u[j][i] - u[j][i - 1], u[j][i + 1] - u[j][i]);
                w[j][i] = u[j][i] - 0.5 * l;
                ea[j][i] = u[j][i] + 0.5 * l;
            }
        }
    }
    let flux = |v: &V2, i: usize| -> Vec<f64> { (0..e).map(|j| (0..e).map(|k| c.lin.a[j][k] * v[k][i]).sum()).collect() };
    let (sl, sr) = (c.lin.lam[0].min(0.0), c.lin.lam[e - 1].max(0.0));
    let mut f = vec![vec![0.0; s]; e];
    for i in 1..s - 2 {
        let (fl, fr) = (flux(&ea, i), flux(&w, i + 1));
        for j in 0..e {
            f[j][i] = (sr * fl[j] - sl * fr[j] + sl * sr * (w[j][i + 1] - ea[j][i])) / (sr - sl);
        }
    }
    let mut r = vec![vec![0.0; s]; e];
    for j in 0..e {
        for i in 2..s - 2 {
            r[j][i] = (f[j][i] - f[j][i - 1]) / m.dx;
        }
    }
    (r, sizes(&u))
}

/// the interior cells
fn inner(u: &V2) -> V2 {
    u.iter().map(|r| r[2..r.len() - 2].to_vec()).collect()
}

pub fn c42() -> Property {
    // every step is that of the reference
    let roracle = |c: &LinCase, cx: &mut Cx| -> Res {
        let (x, e) = (&c.x, c.lin.lam.len());
        let m = refsol::mesh(x.xi_in, x.xi_out, x.s);
        let (rec, start) = lin_run(c, &c.u)?;
        for j in 0..e {
            for i in 2..x.s - 2 {
                need!(start[j][i] == c.u[j][i] * c.lin.q[j], "variable {j} of cell {i} is initially {:e}", start[j][i]);
            }
        }
        let fast = c.lin.lam.iter().fold(0.0f64, |a, l| a.max(l.abs()));
        let dt = x.cfl * m.dx / fast;
        for (k, r) in rec.iter().enumerate() {
            let left = r.t_next.min(x.t_end) - r.t_before;
            let want = dt.min(left);
            need!((r.dt - want).abs() <= 1e-9 * want + 1e-14 * x.t_end, "step {k}: dt = {:e} instead of {want:e}", r.dt);
            let mut big = sizes(&r.cons_before);
            let mut skip = false;
            let (hi, _) = refsol::rk_step(x.rk, &r.cons_before, r.dt, &mut |u: &V2| {
                skip |= undecided(x, u);
                let (rhs, b) = lin_rhs(c, &m, u);
                for j in 0..e {
                    big[j] = big[j].max(b[j]);
                }
                rhs
            });
            if skip {
                cx.label("undecided outflow");
                continue;
            }
            cx.nontrivial();
            // the equations are coupled
            let big = big.iter().fold(0.0f64, |a, b| a.max(*b));
            for j in 0..e {
                for i in 2..x.s - 2 {
                    let (a, b) = (r.cons_after[j][i], hi[j][i]);
                    need!(
                        (a - b).abs() <= 1e-12 * big,
                        "step {k}: variable {j} of {e} becomes {a:e} instead of {b:e} in cell {i} (largest {big:e})"
                    );
                    let p = r.prim_after[j][i];
                    need!((p * c.lin.q[j] - a).abs() <= 1e-15 * a.abs(), "step {k}: primitive variable {p:e} for {a:e}");
                }
            }
        }
        cx.label(format!("{e} equations"));
        cx.label(x.fx.name());
        cx.label(format!("{:?}", x.rk));
        Ok(())
    };
    // superposition and scaling
    let sstrat = || {
        lin_case(1.0, &[1, 2, 5]).prop_map(|mut c| {
            for b in [&mut c.x.bcw, &mut c.x.bce].into_iter().flatten() {
                for (_, m) in b.iter_mut().filter(|m| m.1.is_outflow()) {
                    *m = Bm::NoGradients;
                }
            }
            c
        })
    };
    let soracle = |c: &LinCase, cx: &mut Cx| -> Res {
        let (x, e) = (&c.x, c.lin.lam.len());
        let (ru, su) = lin_run(c, &c.u)?;
        // powers of two are exact
        let f = 2f64.powi(c.k) * c.f[0].signum();
        let scaled: V2 = c.u.iter().map(|r| r.iter().map(|v| v * f).collect()).collect();
        let (rs, _) = lin_run(c, &scaled)?;
        need!(ru.len() == rs.len(), "{} steps instead of {} when the state is scaled by {f:e}", rs.len(), ru.len());
        for (k, (a, b)) in ru.iter().zip(&rs).enumerate() {
            need!(a.dt.to_bits() == b.dt.to_bits(), "step {k}: dt = {:e} instead of {:e} when the state is scaled", b.dt, a.dt);
            for j in 0..e {
                for i in 2..x.s - 2 {
                    let (p, q) = (a.cons_after[j][i] * f, b.cons_after[j][i]);
                    // (sums of limited slopes of opposite order)
                    need!(
                        (p - q).abs() <= 1e-13 * 3f64.powi(k.min(40) as i32) * f.abs() * sizes(&a.cons_before).iter().fold(0.0, |a: f64, b| a.max(*b)),
                        "step {k}: variable {j} of cell {i} is {q:e} instead of {p:e} when the state is scaled by {f:e}"
                    );
                }
            }
        }
        if matches!(x.fx, Fx::Hll | Fx::None) {
            let (rv, sv) = lin_run(c, &c.v)?;
            let sum = |a: &V2, b: &V2| -> V2 {
                a.iter().zip(b).map(|(p, q)| p.iter().zip(q).map(|(s, t)| c.f[0] * s + c.f[1] * t).collect()).collect()
            };
            let (rw, _) = lin_run(c, &sum(&c.u, &c.v))?;
            need!(ru.len() == rw.len() && rv.len() == rw.len(), "the number of steps depends on the state");
            let big = |u: &V2, v: &V2| -> f64 {
                let f = |u: &V2, f: f64| f.abs() * sizes(u).iter().fold(0.0f64, |a, b| a.max(*b));
                f(u, c.f[0]) + f(v, c.f[1])
            };
            let mut most = big(&su, &sv);
            let mut tol = 0.0;
            for k in 0..rw.len() {
                most = most.max(big(&rw[k].cons_before, &rw[k].cons_before)).max(big(&ru[k].cons_after, &rv[k].cons_after));
                // unstable combinations of schemes amplify rounding errors
                tol = 1e-13 * 3f64.powi(k.min(12) as i32) * most;
                let want = sum(&ru[k].cons_after, &rv[k].cons_after);
                if k < 12 {
                    for j in 0..e {
                        for i in 2..x.s - 2 {
                            let (p, q) = (want[j][i], rw[k].cons_after[j][i]);
                            need!(
                                (p - q).abs() <= tol,
                                "step {k}: variable {j} of cell {i} is {q:e}, although the sum of the solutions is {p:e}"
                            );
                        }
                    }
                }
            }
            let _ = tol;
            cx.label("superposition");
        }
        cx.label(format!("{e} equations"));
        cx.label(x.fx.name());
        if !ru.is_empty() && inner(&su).iter().any(|r| r.iter().any(|v| *v != r[0])) {
            cx.nontrivial();
        }
        Ok(())
    };
    // a Courant number of one moves everything by one cell per step
    let estrat = || {
        lin_case(1.0, &[1, 2, 5]).prop_map(|mut c| {
            let e = c.lin.lam.len();
            let l = c.lin.lam[if c.k % 2 == 0 { 0 } else { e - 1 }];
            c.lin.lam = vec![l; e];
            c.lin.a = (0..e).map(|i| (0..e).map(|j| if i == j { l } else { 0.0 }).collect()).collect();
            c.x.rk = Rk::RK1;
            c.x.fx = Fx::Hll;
            c.x.cfl = 1.0;
            let dur = (1 + c.k.unsigned_abs() as usize / 2) as f64 * c.x.dx() / l.abs();
            c.x.t0 = 0.0;
            c.x.t_end = dur;
            c.x.n_out = 1;
            c.x.dt_min = dur * 1e-30;
            c
        })
    };
    let eoracle = |c: &LinCase, cx: &mut Cx| -> Res {
        let (x, e) = (&c.x, c.lin.lam.len());
        let m = refsol::mesh(x.xi_in, x.xi_out, x.s);
        let (rec, start) = lin_run(c, &c.u)?;
        let l = c.lin.lam[0];
        let big = sizes(&start);
        for (k, r) in rec.iter().enumerate() {
            let nu = r.dt * l.abs() / m.dx;
            if (nu - 1.0).abs() > 1e-12 {
                // what is left until t_end
                need!(k + 1 >= rec.len(), "step {k} of {} covers {nu} cells instead of one", rec.len());
                continue;
            }
            let mut b: V2 = (0..e).map(|j| r.cons_before[j].iter().map(|v| v / c.lin.q[j]).collect()).collect();
            refsol::apply_bc(&mut b, &x.bcw, &x.bce, &m);
            if undecided(x, &r.cons_before) {
                cx.label("undecided outflow");
                continue;
            }
            for j in 0..e {
                let size = big[j].max(b[j].iter().fold(0.0, |a: f64, v| a.max(v.abs() * c.lin.q[j])));
                for i in 2..x.s - 2 {
                    let from = if l > 0.0 { i - 1 } else { i + 1 };
                    let want = b[j][from] * c.lin.q[j];
                    let got = r.cons_after[j][i];
                    need!(
                        (got - want).abs() <= 4e-12 * size,
                        "step {k}: {got:e} in cell {i} instead of the {want:e} of its neighbour"
                    );
                }
            }
            cx.nontrivial();
        }
        cx.label(format!("{e} equations"));
        cx.label(if l > 0.0 { "eastward" } else { "westward" });
        Ok(())
    };
    Property {
        id: "C42",
        rule: "at least one step of a state that is not uniform",
        parts: vec![
            part("reference", 12_000, 240_000, || lin_case(1.0, &[1, 2, 5]), roracle),
            part("superposition", 8_000, 160_000, sstrat, soracle),
            part("shift", 6_000, 120_000, estrat, eoracle),
        ],
    }
}

pub fn c43() -> Property {
    let strat = || {
        (lin_case(0.5, &[1, 2]), proptest::sample::select(&[Rk::RK1, Rk::Heun2, Rk::SSPRK3, Rk::SSPRK5][..]), 0u8..7, 1.0001f64..2.0).prop_map(
            |(mut c, rk, fx, theta)| {
                let e = c.lin.lam.len();
                // independent equations with a common speed
                let l = c.lin.lam[0];
                c.lin.lam = vec![l; e];
                c.lin.a = (0..e).map(|i| (0..e).map(|j| if i == j { l } else { 0.0 }).collect()).collect();
                c.x.rk = rk;
                c.x.fx = match fx {
                    0 => Fx::MinMod,
                    1 => Fx::Superbee,
                    2..=3 => Fx::Monocent(theta),
                    4..=5 => Fx::VanLeer,
                    _ => Fx::Hll,
                };
                c.x.bcw = None;
                c.x.bce = None;
                c
            },
        )
    };
    let oracle = |c: &LinCase, cx: &mut Cx| -> Res {
        let (x, e) = (&c.x, c.lin.lam.len());
        let (rec, start) = lin_run(c, &c.u)?;
        for j in 0..e {
            let ext = |u: &V2| {
                let r = &u[j][2..x.s - 2];
                let tv: f64 = r.windows(2).map(|w| (w[1] - w[0]).abs()).sum();
                (r.iter().cloned().fold(f64::INFINITY, f64::min), r.iter().cloned().fold(f64::NEG_INFINITY, f64::max), tv)
            };
            let (mut lo, mut hi, mut tv) = ext(&start);
            let size = lo.abs().max(hi.abs());
            for (k, r) in rec.iter().enumerate() {
                let (l, h, t) = ext(&r.cons_after);
                let eps = 1e-13 * size;
                need!(l >= lo - eps && h <= hi + eps, "step {k}: values between {l:e} and {h:e} out of values between {lo:e} and {hi:e}");
                need!(
                    t <= tv + eps * (x.s as f64),
                    "step {k}: the total variation grows from {tv:e} to {t:e} ({:e})",
                    t / tv - 1.0
                );
                let b = &r.cons_before[j][2..x.s - 2];
                let a = &r.cons_after[j][2..x.s - 2];
                // monotone profiles stay monotone
                if b.windows(2).all(|w| w[1] >= w[0]) {
                    need!(a.windows(2).all(|w| w[1] >= w[0] - 2.0 * eps), "step {k}: a rising profile does not rise any more: {b:?} -> {a:?}");
                }
                if b.windows(2).all(|w| w[1] <= w[0]) {
                    need!(a.windows(2).all(|w| w[1] <= w[0] + 2.0 * eps), "step {k}: a falling profile does not fall any more: {b:?} -> {a:?}");
                }
                if b.windows(2).any(|w| w[1] != w[0]) {
                    cx.nontrivial();
                }
                (lo, hi, tv) = (l, h, t);
            }
        }
        cx.label(x.fx.name());
        cx.label(format!("{:?}", x.rk));
        cx.label(if c.lin.lam[0] > 0.0 { "eastward" } else { "westward" });
        Ok(())
    };
    Property {
        id: "C43",
        rule: "at least one step of a profile that is not uniform",
        parts: vec![part("extrema", 24_000, 500_000, strat, oracle)],
    }
}

// =====================================================================================================================
// C44 flux schemes and integrators of the user
// =====================================================================================================================

#[derive(Clone, Debug, Serialize, Deserialize)]
struct UserCase {
    x: Scn,
    mode: UserTimeMode,
    outputs: usize,
}

fn user_case() -> impl Strategy<Value = UserCase> {
    let o = Opt {
        amp: 1.5,
        mach: 2.0,
        asc: true,
        steps: 15.0,
        sizes: &sim::USER_SIZES,
        ..Opt::default()
    };
    let mode = (prop_oneof![Just(1.0), 0.05f64..1.0], any::<bool>(), prop_oneof![3 => Just(None), 1 => (0usize..12).prop_map(Some)]);
    (scn(o), mode, 0usize..6).prop_map(|(mut x, (part, midpoint, fail_at), outputs)| {
        x.iter_max = 400;
        x.n_out = outputs;
        UserCase { x, mode: UserTimeMode { part, midpoint, fail_at }, outputs }
    })
}

pub fn c44() -> Property {
    let fstrat = || {
        user_case().prop_map(|mut c| {
            c.x.asc = if c.outputs % 2 == 0 { c.x.asc } else { None };
            c.x.iter_max = 30;
            c
        })
    };
    let foracle = |c: &UserCase, cx: &mut Cx| -> Res {
        let x = &c.x;
        let p = refsol::Problem::new(x);
        let mut s = match sim::build_user(&x.conf(), x.ad, x.s, x.init(), None) {
            Ok(s) => s,
            Err(e) => return fail(format!("valid configuration rejected: {}", sim::errstr(&e))),
        };
        let (tab, b, _) = refsol::tableau(x.rk);
        for step in 0..20 {
            let (t, t_end) = (s.ts().t, x.t_end);
            if t + x.dt_min >= t_end {
                break;
            }
            s.ts().t_next_output = t_end;
            let before = s.vars(sim::D::Cent);
            sim::take_seen();
            let r = s.step();
            let dt = s.ts().dt;
            let seen = sim::take_seen();
            for (n, call) in seen.iter().enumerate() {
                // the state is consistent and its ghost cells follow the boundary conditions
                if crate::p_flux::undecided(x, &call.prim) {
                    return Ok(());
                }
                let (prim, cons, cs) = p.complete(&call.cons);
                if !cons.iter().flatten().chain(cs.iter()).all(|v| v.is_finite()) {
                    return Ok(());
                }
                let sc = p.scales(&prim, &cs);
                let speed = x.dx() / p.crossing_time(&prim, &cs);
                let hot = |i: usize| if x.ad { (cons[2][i] * (x.gamma - 1.0) / prim[2][i]).abs().max(1.0) } else { 1.0 };
                // extrapolated values are differences of those of the outermost cells
                let base = |j: usize, i: usize| -> f64 {
                    match i {
                        0 | 1 => prim[j][2].abs().max(prim[j][3].abs()),
                        _ if i >= x.s - 2 => prim[j][x.s - 3].abs().max(prim[j][x.s - 4].abs()),
                        _ => prim[j][i].abs(),
                    }
                };
                let hot2 = |i: usize| match i {
                    0 | 1 => hot(2).max(hot(3)),
                    _ if i >= x.s - 2 => hot(x.s - 3).max(hot(x.s - 4)),
                    _ => hot(i),
                };
                if (2..x.s - 2).any(|i| prim[0][i] <= 0.0 || (x.ad && prim[2][i] <= 0.0)) {
                    cx.label("unphysical stage");
                    return Ok(());
                }
                for i in 0..x.s {
                    let rough = [0, 2].iter().any(|&j| j < x.e() && prim[j][i] < 1e-2 * base(j, i));
                    for j in 0..x.e() {
                        let pw = match j {
                            0 => base(0, i),
                            1 => speed,
                            _ => base(2, i) * hot2(i),
                        };
                        need!(
                            (call.prim[j][i] - prim[j][i]).abs() <= 1e-11 * pw,
                            "step {step}, evaluation {n}: primitive variable {j} of cell {i} is {:e} instead of {:e}",
                            call.prim[j][i],
                            prim[j][i]
                        );
                        if rough {
                            continue;
                        }
                        need!(
                            (call.cons[j][i] - cons[j][i]).abs() <= 1e-11 * sc[j],
                            "step {step}, evaluation {n}: conservative variable {j} of cell {i} is {:e} instead of {:e}",
                            call.cons[j][i],
                            cons[j][i]
                        );
                    }
                    if rough {
                        continue;
                    }
                    need!(
                        (call.c[i] - cs[i]).abs() <= 1e-9 * cs[i] * hot2(i),
                        "step {step}, evaluation {n}: sound speed {:e} instead of {:e} in cell {i}",
                        call.c[i],
                        cs[i]
                    );
                    let hot = &hot2;
                    let (lo, hi) = (call.eig[0][i], call.eig[x.e() - 1][i]);
                    let tol = 1e-9 * (prim[1][i].abs() + cs[i]) * hot(i) + 1e-11 * speed;
                    need!(
                        (lo - (prim[1][i] - cs[i])).abs() <= tol && (hi - (prim[1][i] + cs[i])).abs() <= tol,
                        "step {step}, evaluation {n}: wave speeds {lo:e} and {hi:e} in cell {i} with velocity {:e} and sound speed {:e}",
                        prim[1][i],
                        cs[i]
                    );
                    // all other waves move with the gas
                    for w in &call.eig[1..x.e() - 1] {
                        need!(
                            (w[i] - prim[1][i]).abs() <= tol,
                            "step {step}, evaluation {n}: wave speed {:e} in cell {i} with velocity {:e}",
                            w[i],
                            prim[1][i]
                        );
                    }
                }
            }
            if r.is_err() {
                cx.label("failed step");
                break;
            }
            // the step is that of the tableau with the fluxes of the user
            let n = b.len();
            need!(seen.len() >= n && seen.len() % n == 0, "{} evaluations in a step of {n} stages", seen.len());
            if x.asc.is_none() {
                need!(seen.len() == n, "{} evaluations in a step of {n} stages", seen.len());
            }
            let last = &seen[seen.len() - n..];
            let after = s.cons();
            let judge = |what: &str, got: &V2, coef: &dyn Fn(usize) -> f64, m: usize| -> Res {
                for j in 0..x.e() {
                    for i in 2..x.s - 2 {
                        let mut want = before.cons[j][i];
                        let mut size = want.abs();
                        for q in 0..m {
                            want -= dt * coef(q) * last[q].rhs[j][i];
                            size = size.max((dt * coef(q) * last[q].rhs[j][i]).abs());
                        }
                        let mut size = size;
                        if x.ad && j == 2 {
                            // energies are calculated anew from the pressure and the kinetic energy
                            size = size.max(want.abs());
                        }
                        need!(
                            (got[j][i] - want).abs() <= 1e-11 * size,
                            "step {step}: {what} {:e} instead of {want:e} (variable {j}, cell {i})",
                            got[j][i]
                        );
                    }
                }
                Ok(())
            };
            for q in 0..n {
                judge(&format!("stage {q} starts from"), &last[q].cons, &|p| tab[q][p], q)?;
            }
            judge("the step ends with", &after, &|q| b[q], n)?;
            cx.nontrivial();
        }
        cx.label(format!("{:?}", x.rk));
        cx.label(if x.asc.is_some() { "step control" } else { "no step control" });
        Ok(())
    };
    let toracle = |c: &UserCase, cx: &mut Cx| -> Res {
        let x = &c.x;
        let mut s = match sim::build_user(&x.conf(), x.ad, x.s, x.init(), Some(c.mode)) {
            Ok(s) => s,
            Err(e) => return fail(format!("valid configuration rejected: {}", sim::errstr(&e))),
        };
        sim::set_budget(2_000_000);
        let all = |s: &Box<dyn sim::Sim>| [s.vars(sim::D::West), s.vars(sim::D::Cent), s.vars(sim::D::East)];
        let mut now = all(&s);
        let r = s.run().map_err(|e| sim::errstr(&e));
        let calls = sim::take_calls();
        let outputs = s.writer().output_counter;
        let ts = s.ts().clone();
        let dt_out = (x.t_end - x.t0) / x.n_out as f64;
        let mut t = x.t0;
        let mut expected = 0;
        let mut at = x.t0;
        for (k, (rec, before, after)) in calls.iter().enumerate() {
            // nothing happens to the state between the calls
            if let Some(f) = now[1].diff(&before[1]) {
                return fail(format!("call {k}: {f} is changed before the integrator of the user is called"));
            }
            for d in [0, 2] {
                if let Some(f) = now[d].diff(&before[d]) {
                    return fail(format!("call {k}: {f} at the faces is changed before the integrator of the user is called"));
                }
            }
            need!(rec.t_before.to_bits() == t.to_bits(), "call {k}: the time changes from {t:e} to {:e} between the calls", rec.t_before);
            need!(rec.iter == k, "call {k}: iteration {} before the call", rec.iter);
            need!(rec.t_before < x.t_end && (x.n_out == 0 || rec.t_next > rec.t_before), "call {k}: nothing to do at t = {:e}", t);
            // the outputs that are due
            let unclear = (t - at + x.dt_min).abs() <= 1e-12 * x.t_end;
            let due = if unclear { (rec.t_next - at).abs() > 1e-12 * x.t_end } else { t >= at - x.dt_min };
            if due {
                expected += 1;
                at = if x.n_out > 0 && expected < x.n_out { x.t0 + expected as f64 * dt_out } else { x.t_end };
            }
            if x.n_out > 0 {
                // (after the last output, anything beyond t_end will do)
                need!(
                    (rec.t_next - at).abs() <= 1e-12 * x.t_end || (expected > x.n_out && rec.t_next >= x.t_end),
                    "call {k}: the next output is due at {:e} instead of {at:e}",
                    rec.t_next
                );
            }
            t = rec.t_after;
            now = after.clone();
        }
        let gave_up = c.mode.fail_at.is_some_and(|n| calls.len() == n + 1);
        if r.is_ok() || gave_up {
            if let Some(f) = now[1].diff(&s.vars(sim::D::Cent)) {
                return fail(format!("{f} is changed after the last step"));
            }
        }
        if let Some(n) = c.mode.fail_at {
            need!(calls.len() <= n + 1, "the run goes on after an error of the integrator");
        }
        match &r {
            Ok(()) => {
                need!(!gave_up, "success although the integrator gives up");
                need!((ts.t - x.t_end).abs() <= x.dt_min, "the run ends at {:e} instead of {:e}", ts.t, x.t_end);
                need!(outputs == 1 + x.n_out, "{outputs} outputs instead of {}", 1 + x.n_out);
                cx.label("success");
            },
            Err(e) => {
                if gave_up {
                    need!(e.contains("the user's integrator gives up"), "the error of the integrator becomes {e:?}");
                    need!(outputs == expected + 1, "{outputs} outputs instead of {expected} and the error dump");
                    cx.label("gives up");
                } else {
                    // the limit of iterations, or a state that cannot be continued
                    cx.label("other error");
                }
            },
        }
        // midpoint steps are those of the built-in scheme
        if c.mode.part == 1.0 && x.asc.is_none() {
            let mut y = x.clone();
            y.rk = if c.mode.midpoint { Rk::RK2 } else { Rk::RK1 };
            let mut b = y.build()?;
            sim::record(2);
            let rb = b.run();
            let rec = sim::take_record();
            sim::record(0);
            let n = calls.iter().filter(|c| c.0.ok).count().min(rec.iter().filter(|r| r.ok).count()).min(4);
            if r.is_ok() && rb.is_ok() {
                need!(calls.len() == rec.len(), "{} steps instead of {}", calls.len(), rec.len());
            }
            for k in 0..n {
                let (a, b) = (&calls[k], &rec[k]);
                need!((a.0.dt - b.dt).abs() <= 1e-8 * b.dt + 1e-13 * x.t_end, "step {k}: dt = {:e} instead of {:e}", a.0.dt, b.dt);
                if k == 0 && !crate::p_flux::undecided(x, &b.prim_before) {
                    for j in 0..x.e() {
                        let big = sizes(&b.cons_before)[j].max(sizes(&b.cons_after)[j]);
                        for i in 2..x.s - 2 {
                            let (p, q) = (a.2[1].cons[j][i], b.cons_after[j][i]);
                            need!((p - q).abs() <= 1e-7 * big, "step {k}: {p:e} instead of {q:e} (variable {j}, cell {i})");
                        }
                    }
                }
            }
            cx.label("built-in");
        }
        if calls.len() > 1 {
            cx.nontrivial();
        }
        Ok(())
    };
    Property {
        id: "C44",
        rule: "at least one successful step with the flux scheme of the user, or two calls of his integrator",
        parts: vec![part("flux", 10_000, 200_000, fstrat, foracle), part("time", 10_000, 200_000, user_case, toracle)],
    }
}

// =====================================================================================================================
// C45 long runs
// =====================================================================================================================

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LongCase {
    x: Scn,
    /// further steps that are looked at, as fractions of the run
    at: Vec<f64>,
}

pub fn c45() -> Property {
    fn strat(longest: f64) -> impl Strategy<Value = LongCase> {
        let o = |closed: bool| Opt {
            sizes: &[6, 7, 8, 10, 17],
            amp: 1.0,
            mach: 1.0,
            tail: 0.0,
            jumps: 1.0,
            steps: 1.0,
            stable: true,
            closed,
            plain_bc: !closed,
            ..Opt::default()
        };
        let n = prop_oneof![6 => logu(300.0, 3000.0), 3 => logu(3000.0, 20_000.0), 1 => logu(20_000.0, longest)];
        let out = prop_oneof![1 => Just(0usize), 3 => 1usize..20, 3 => 20usize..400, 1 => 400usize..3000];
        let cap = prop_oneof![2 => Just(f64::MAX), 3 => 0.3f64..1.0];
        let scn = prop_oneof![3 => scn(o(true)), 2 => scn(o(false))];
        (scn, n, out, cap, proptest::collection::vec(0.0f64..1.0, 12)).prop_map(|(mut x, n, out, cap, at)| {
            x.cfl = x.cfl.min(0.4);
            let dt = x.cfl * x.dx() / x.speed();
            let dur = n * dt;
            x.t0 = if x.t0 > 0.0 { dur * 0.3 } else { 0.0 };
            x.t_end = x.t0 + dur;
            x.dt_min = dt * 1e-7;
            if cap < f64::MAX {
                x.dt_max = cap * dt;
            }
            x.n_out = out;
            x.iter_max = 2_000_000;
            if !x.ad {
                // walls reflect the temperature, too
                let s = x.s;
                for (g, i) in [(1, 2), (0, 3), (s - 2, s - 3), (s - 1, s - 4)] {
                    x.cells[g][2] = x.cells[i][2];
                }
            }
            LongCase { x, at }
        })
    }
    let oracle = |c: &LongCase, cx: &mut Cx| -> Res {
        let x = &c.x;
        let dt0 = (x.cfl * x.dx() / x.speed()).min(x.dt_max);
        let expected = (x.t_end - x.t0) / dt0;
        sim::sample(c.at.iter().map(|f| (f * expected) as usize).collect());
        sim::set_budget(40_000_000);
        let root = fresh(cx, "l");
        let io = IoCase::rows(x, vec![Col::Iter, Col::T, Col::Dt], 17);
        let mut s = match io.build(&root) {
            Ok(s) => s,
            Err(e) => return fail(format!("valid configuration rejected: {e}")),
        };
        let start = s.cons();
        sim::record(3);
        let r = s.run();
        let rec = sim::take_record();
        sim::record(0);
        sim::sample(vec![]);
        let stages = refsol::tableau(x.rk).1.len() as u64;
        let mut t = x.t0;
        for (k, q) in rec.iter().enumerate() {
            if !q.ok {
                need!(r.is_err(), "a failed step is ignored");
                continue;
            }
            need!(q.iter == k + 1, "step {k} counts as iteration {}", q.iter);
            need!(q.t_before.to_bits() == t.to_bits(), "the time jumps from {t:e} to {:e} before step {k}", q.t_before);
            need!(q.dt > 0.0 && q.t_after > q.t_before, "step {k} of width {:e} does not advance the time {:e}", q.dt, q.t_before);
            need!(q.t_after <= x.t_end * (1.0 + 1e-14), "step {k} ends at {:e} after t_end", q.t_after);
            t = q.t_after;
        }
        // each step only depends on the state before it
        let mut looked = 0;
        for (k, q) in rec.iter().enumerate().filter(|(_, q)| q.ok && !q.cons_before.is_empty()) {
            let mut y = x.build()?;
            y.set_prim(sim::D::Cent, &q.prim_before);
            y.set_cons(sim::D::Cent, &q.cons_before);
            y.set_c(sim::D::Cent, &q.c_before);
            y.op(sim::Op::Derived0);
            y.ts().t = q.t_before;
            y.ts().t_next_output = q.t_next;
            if let Err(e) = y.step() {
                return fail(format!("step {k} succeeds in the run, but not in a new simulation: {}", sim::errstr(&e)));
            }
            need!(
                y.ts().dt.to_bits() == q.dt.to_bits(),
                "step {k} is {:e} wide, in a new simulation {:e}",
                q.dt,
                y.ts().dt
            );
            let v = y.vars(sim::D::Cent);
            for (name, got, want) in [("conservative", &q.cons_after, &v.cons), ("primitive", &q.prim_after, &v.prim)] {
                for j in 0..x.e() {
                    for i in 0..x.s {
                        need!(
                            got[j][i].to_bits() == want[j][i].to_bits(),
                            "after step {k} {name} variable {j} of cell {i} is {:e}, in a new simulation {:e}",
                            got[j][i],
                            want[j][i]
                        );
                    }
                }
            }
            // totals in closed boxes
            if x.bcw.is_some() && x.fx.is_hll() {
                for j in (0..x.e()).filter(|j| *j != 1) {
                    let total = |u: &V2| u[j][2..x.s - 2].iter().sum::<f64>();
                    let (a, b) = (total(&start), total(&q.cons_after));
                    let tol = 1e-15 * (20.0 + 4.0 * (k as u64 * stages) as f64) * a.abs() * x.s as f64;
                    need!((a - b).abs() <= tol, "the total of variable {j} changes from {a:e} to {b:e} after {} steps", k + 1);
                }
                cx.label("totals");
            }
            looked += 1;
        }
        if r.is_ok() {
            let rows = io.read_rows(&root)?;
            need!(rows.len() == x.n_out + 1, "{} outputs instead of {}", rows.len(), x.n_out + 1);
            let interval = (x.t_end - x.t0) / x.n_out as f64;
            for (m, row) in rows.iter().enumerate() {
                let (it, t) = (row[0] as usize, row[1]);
                let due = if m == 0 { x.t0 } else { x.t0 + m as f64 * interval };
                need!(
                    (t - due).abs() <= x.dt_min * 1.001 + 1e-15 * (4.0 + m as f64) * x.t_end,
                    "output {m} is made at t = {t:e} instead of {due:e}"
                );
                let (tt, dt) = if it == 0 { (x.t0, 0.0) } else { rec.get(it - 1).map_or((f64::NAN, 0.0), |q| (q.t_after, q.dt)) };
                need!(t == tt && row[2] == dt, "output {m} shows iteration {it}, t = {t:e}, dt = {:e} instead of {tt:e}, {dt:e}", row[2]);
            }
            cx.label("success");
        } else {
            cx.label("error");
        }
        cx.label(match rec.len() {
            0..=999 => "fewer than 1000 steps",
            1000..=9999 => "1000 to 10000 steps",
            10_000..=65_535 => "10000 to 65535 steps",
            _ => "more than 65535 steps",
        });
        if x.n_out > 255 {
            cx.label("more than 256 outputs");
        }
        if rec.len() >= 250 && looked >= 10 {
            cx.nontrivial();
        }
        Ok(())
    };
    Property {
        id: "C45",
        rule: "at least 250 steps, of which at least 10 are repeated in new simulations",
        parts: vec![part("long", 300, 6_000, || strat(70_000.0), oracle)],
    }
}

// =====================================================================================================================
// C46 positivity of the HLL scheme
// =====================================================================================================================

pub fn c46() -> Property {
    let strat = || {
        let o = Opt {
            amp: 6.0,
            mach: 10.0,
            tail: 2.0,
            jumps: 3.0,
            steps: 40.0,
            ..Opt::default()
        };
        (scn(o), prop_oneof![4 => 0.05f64..0.49, 1 => Just(0.49)], 1usize..40).prop_map(|(mut x, cfl, n)| {
            x.fx = Fx::Hll;
            x.rk = Rk::RK1;
            x.asc = None;
            // whatever the velocities of ghost cells are, their densities and pressures are those of some cell
            for b in [&mut x.bcw, &mut x.bce].into_iter().flatten() {
                for (j, m) in b.iter_mut() {
                    if *j != 1 || m.is_kepler() {
                        *m = Bm::NoGradients;
                    }
                }
            }
            x.cfl = cfl;
            let dt = cfl * x.dx() / x.speed();
            x.t_end = x.t0 + 1e6 * dt;
            x.dt_min = dt * 1e-100;
            (x, n)
        })
    };
    let oracle = |(x, n): &(Scn, usize), cx: &mut Cx| -> Res {
        let mut s = x.build()?;
        let t_end = x.t_end;
        s.ts().t_next_output = t_end;
        let (mut worst, mut steps) = (f64::MAX, 0);
        for k in 0..*n {
            let a = s.vars(sim::D::Cent);
            let c = |i: usize| if x.ad { (x.gamma * a.prim[2][i] / a.prim[0][i]).sqrt() } else { a.c[i] };
            let speed = (0..x.s).fold(0.0f64, |m, i| m.max(a.prim[1][i].abs() + c(i)));
            let nu = x.cfl;
            // bounds for each cell: density, pressure
            let near = |i: usize, f: &dyn Fn(usize) -> f64| f(i - 1) + f(i) + f(i + 1);
            let top = |i: usize| (i - 1..=i + 1).fold(0.0f64, |m, i| m.max(a.prim[1][i].abs() + c(i)));
            let rho_tol = |i: usize| 4e-15 * near(i, &|i| a.prim[0][i]);
            let p_tol = |i: usize, v: f64| {
                let w = v.abs().max(top(i));
                4e-14 * (x.gamma - 1.0) * near(i, &|i| a.cons[2][i] + a.cons[1][i].abs() * w + a.prim[0][i] * w * w)
            };
            let clear = (2..x.s - 2).all(|i| {
                (1.0 - 2.0 * nu) * a.prim[0][i] > 10.0 * rho_tol(i)
                    && (!x.ad || (1.0 - 2.0 * nu) * a.prim[2][i] > 10.0 * p_tol(i, speed))
            });
            if !clear {
                cx.label("lost in rounding errors");
                break;
            }
            if let Err(e) = s.step() {
                return fail(format!("step {k} of the HLL scheme at a CFL number of {} fails: {}", x.cfl, sim::errstr(&e)));
            }
            let b = s.vars(sim::D::Cent);
            let dt = s.ts().dt;
            let nu = dt * speed / x.dx();
            need!(nu <= x.cfl * (1.0 + 1e-9), "step {k}: the fastest wave crosses {nu} cells at a CFL number of {}", x.cfl);
            for i in 2..x.s - 2 {
                let low = (1.0 - 2.0 * nu) * a.prim[0][i] - rho_tol(i);
                need!(
                    b.prim[0][i] >= low,
                    "step {k}: the density of cell {i} drops from {:e} to {:e}, waves can only take it to {low:e}",
                    a.prim[0][i],
                    b.prim[0][i]
                );
                worst = worst.min(b.prim[0][i] / a.prim[0][i]);
                if x.ad {
                    let low = (1.0 - 2.0 * nu) * a.prim[2][i] - p_tol(i, b.prim[1][i]);
                    need!(
                        b.prim[2][i] >= low,
                        "step {k}: the pressure of cell {i} drops from {:e} to {:e}, waves can only take it to {low:e}",
                        a.prim[2][i],
                        b.prim[2][i]
                    );
                    worst = worst.min(b.prim[2][i] / a.prim[2][i]);
                }
            }
            steps += 1;
        }
        cx.label(match worst {
            w if w < 0.55 => "a cell loses 45 percent in a step",
            w if w < 0.8 => "a cell loses 20 percent in a step",
            _ => "calm",
        });
        if steps > 0 && worst < 0.999 {
            cx.nontrivial();
        }
        Ok(())
    };
    Property {
        id: "C46",
        rule: "a step in which the density or pressure of a cell falls by at least 0.1 percent",
        parts: vec![part("hll", 30_000, 600_000, strat, oracle)],
    }
}

// =====================================================================================================================
// C47 the second law
// =====================================================================================================================

/// The exact solution between two states stays within the fastest waves of both
fn averaged(gas: Gas, l: W, r: W) -> bool {
    let rp = Riemann::new(gas, l, r);
    let (cl, cr) = (gas.c(&l), gas.c(&r));
    let (low, high) = ((l[1] - cl).min(r[1] - cr), (l[1] + cl).max(r[1] + cr));
    let eps = 1e-7 * low.abs().max(high.abs()).max(cl).max(cr);
    let west = rp.p <= l[2] || rp.wave(-1.0).0 >= low + eps;
    let east = rp.p <= r[2] || rp.wave(1.0).0 <= high - eps;
    west && east
}

pub fn c47() -> Property {
    let strat = |kind: usize| {
        move || {
            let o = Opt {
                amp: 3.0,
                mach: 4.0,
                tail: 1.0,
                jumps: 3.0,
                steps: 60.0,
                closed: kind == 1,
                ..Opt::default()
            };
            (scn(o), prop_oneof![4 => 0.05f64..0.49, 1 => Just(0.49)], 1usize..60).prop_map(move |(mut x, cfl, n)| {
                x.fx = Fx::Hll;
                x.rk = Rk::RK1;
                x.asc = None;
                if !x.ad {
                    // one temperature
                    let c = x.cells[0][2];
                    x.cells.iter_mut().for_each(|w| w[2] = c);
                }
                for b in [&mut x.bcw, &mut x.bce].into_iter().flatten() {
                    for (j, m) in b.iter_mut() {
                        if *j != 1 || m.is_kepler() {
                            *m = Bm::NoGradients;
                        }
                    }
                }
                if kind == 2 {
                    (x.bcw, x.bce) = (None, None);
                }
                x.cfl = cfl;
                let dt = cfl * x.dx() / x.speed();
                x.t_end = x.t0 + 1e6 * dt;
                x.dt_min = dt * 1e-100;
                (x, n)
            })
        }
    };
    let oracle = |kind: usize| {
        move |(x, n): &(Scn, usize), cx: &mut Cx| -> Res {
            let shut = kind > 0;
            if !shut && !x.ad {
                // without an equation for the energy, only the energy of the whole domain tells
                return discard("no equation for the energy");
            }
            let mut s = x.build()?;
            s.ts().t_next_output = x.t_end;
            let (mut judged, mut rise) = (0usize, 0.0f64);
            for k in 0..*n {
                let a = s.vars(sim::D::Cent);
                if s.step().is_err() {
                    cx.label("lost in rounding errors");
                    break;
                }
                let b = s.vars(sim::D::Cent);
                let gas = if x.ad { Gas::Adiabatic(x.gamma) } else { Gas::Isothermal(a.c[2]) };
                let w = |i: usize| match gas {
                    Gas::Adiabatic(_) => [a.prim[0][i], a.prim[1][i], a.prim[2][i]],
                    Gas::Isothermal(c) => [a.prim[0][i], a.prim[1][i], c * c * a.prim[0][i]],
                };
                let sound = (1..x.s - 2).map(|i| averaged(gas, w(i), w(i + 1))).collect::<Vec<_>>();
                // entropy, and its uncertainty due to the rounding errors of the conservative variables
                let fuzz = |i: usize| {
                    let near = |f: &dyn Fn(usize) -> f64| f(i - 1) + f(i) + f(i + 1);
                    let top = (i - 1..=i + 1).fold(b.prim[1][i].abs(), |m, i| m.max(w(i)[1].abs() + gas.c(&w(i))));
                    let d = 4e-15 * near(&|i| a.prim[0][i]);
                    let p = 4e-14 * near(&|i| a.prim[2.min(a.prim.len() - 1)][i] + a.prim[0][i] * top * top) * x.gamma.max(1.0);
                    d / b.prim[0][i] * x.gamma.max(1.0) + if x.ad { p / b.prim[2][i] } else { 0.0 }
                };
                let entropy = |v: &V2, i: usize| v[2][i].ln() - x.gamma * v[0][i].ln();
                if !shut {
                    for i in 2..x.s - 2 {
                        if !sound[i - 2] || !sound[i - 1] {
                            cx.label("exact waves faster than those of both states");
                            continue;
                        }
                        let tol = 2.0 * fuzz(i) + 1e-13 * (i - 1..=i + 1).fold(1.0f64, |m, i| m.max(entropy(&a.prim, i).abs()));
                        if tol > 1e-4 {
                            cx.label("lost in rounding errors");
                            continue;
                        }
                        let low = (i - 1..=i + 1).fold(f64::MAX, |m, i| m.min(entropy(&a.prim, i)));
                        let now = entropy(&b.prim, i);
                        need!(
                            now >= low - tol,
                            "step {k}: the specific entropy of cell {i} falls to {now:e}, the lowest around was {low:e} ({:e} below, tolerance {tol:e})",
                            low - now
                        );
                        rise = rise.max(now - entropy(&a.prim, i));
                        judged += 1;
                    }
                } else {
                    if sound.iter().any(|s| !s) {
                        cx.label("exact waves faster than those of both states");
                        continue;
                    }
                    let of = |v: &V2, i: usize| match gas {
                        Gas::Adiabatic(_) => v[0][i] * -entropy(v, i),
                        Gas::Isothermal(c) => 0.5 * v[0][i] * v[1][i] * v[1][i] + c * c * v[0][i] * v[0][i].ln(),
                    };
                    let (mut old, mut new, mut tol) = (0.0, 0.0, 0.0);
                    // what flows in and out through the edges, where the states of both sides are the same
                    if kind == 2 {
                        let q = |i: usize| {
                            let more = if let Gas::Isothermal(c) = gas { c * c * a.prim[0][i] } else { 0.0 };
                            a.prim[1][i] * (of(&a.prim, i) + more)
                        };
                        let r = s.ts().dt / x.dx();
                        let (west, east) = (q(2), q(x.s - 3));
                        old += r * (west - east);
                        tol += 1e-12 * r * (west.abs() + east.abs());
                    }
                    for i in 2..x.s - 2 {
                        let (p, q) = (of(&a.prim, i), of(&b.prim, i));
                        let v = a.prim[1][i].abs().max(b.prim[1][i].abs());
                        let rho = a.prim[0][i].max(b.prim[0][i]);
                        tol += 1e-13 * (p.abs() + q.abs());
                        tol += match gas {
                            Gas::Adiabatic(_) => rho * 2.0 * fuzz(i) * (1.0 + entropy(&b.prim, i).abs()),
                            Gas::Isothermal(c) => {
                                1e-13 * (1..=x.s - 2).fold(0.0, |m: f64, i| m.max(a.prim[0][i]))
                                    * (v + c)
                                    * (v + c)
                                    * (2.0 + rho.ln().abs() + b.prim[0][i].ln().abs())
                            },
                        };
                        old += p;
                        new += q;
                    }
                    need!(
                        new <= old + tol,
                        "step {k}: {} {} from {old:e} to {new:e} ({:e} more, tolerance {tol:e})",
                        if kind == 1 { "between walls," } else { "apart from what flows through the edges," },
                        if x.ad { "the entropy falls: its negative rises" } else { "the available energy rises" },
                        new - old
                    );
                    rise = rise.max((old - new) / (1e3 * tol));
                    judged += 1;
                }
            }
            if judged > 0 && rise > if shut { 1.0 } else { 1e-3 } {
                cx.nontrivial();
            }
            Ok(())
        }
    };
    Property {
        id: "C47",
        rule: "cells: the entropy of some cell rises by at least 0.001 in a judged step; walls, open: the total changes by at least 1000 times the tolerance",
        parts: vec![
            part("cells", 12_000, 240_000, strat(0), oracle(0)),
            part("walls", 12_000, 240_000, strat(1), oracle(1)),
            part("open", 12_000, 240_000, strat(2), oracle(2)),
        ],
    }
}
