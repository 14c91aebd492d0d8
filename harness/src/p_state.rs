//! Mesh, variables, boundary conditions, initialisation, units, guard macros

use crate::engine::*;
use crate::gen::*;
use crate::need;
use crate::refsol;
use crate::sim::{self, same_bits, same_bits1, Op, Sim, Snap, ALL_D, D, SIZES, V2};
use corries::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn close(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol || a.to_bits() == b.to_bits()
}

// =====================================================================================================================
// C01 mesh
// =====================================================================================================================

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MeshCase {
    s: usize,
    ad: bool,
    /// inner edge in units of the cell width
    k: f64,
    width_log10: f64,
}

fn base_scn(s: usize, ad: bool) -> Scn {
    Scn {
        ad,
        gamma: 1.4,
        s,
        fx: Fx::Hll,
        rk: Rk::RK1,
        asc: None,
        xi_in: 3.3,
        xi_out: 4.3,
        bcw: None,
        bce: None,
        cfl: 0.4,
        dt_min: 1e-12,
        dt_max: f64::MAX,
        t0: 0.0,
        t_end: 1.0,
        n_out: 1,
        iter_max: 1000,
        cells: vec![[1.0, 0.0, 1.0]; s],
    }
}

pub fn c01() -> Property {
    let strat = || {
        let k = prop_oneof![
            4 => xi_in_strategy(),
            1 => (xi_in_strategy(), 0u32..20).prop_map(|(x, n)| x * (1u64 << n) as f64),
        ];
        let w = prop_oneof![3 => -3.0f64..3.0, 2 => -12.0f64..12.0, 1 => -60.0f64..60.0];
        (proptest::sample::select(&SIZES[..]), any::<bool>(), k, w).prop_map(|(s, ad, k, width_log10)| MeshCase {
            s,
            ad,
            k,
            width_log10,
        })
    };
    let oracle = |c: &MeshCase, cx: &mut Cx| -> Res {
        let mut x = base_scn(c.s, c.ad);
        let n = (c.s - 4) as f64;
        let width = 10f64.powf(c.width_log10);
        x.xi_in = c.k * width / n;
        x.xi_out = x.xi_in + width;
        let r = refsol::mesh(x.xi_in, x.xi_out, c.s);
        let big = r.xw.iter().chain(r.xe.iter()).fold(0.0f64, |a, b| a.max(b.abs()));
        let eps = f64::EPSILON;
        // resolution of the coordinates relative to the cell width
        let res = eps * big / r.dx;
        if r.xw.iter().chain(&r.xc).chain(&r.xe).any(|v| v.abs() < 0.05 * r.dx) || res > 1e-6 {
            return discard("a cell edge or centre (nearly) on the origin");
        }
        let sim = match sim::build(&x.conf(), x.ad, x.s, x.init()) {
            Ok(s) => s,
            Err(e) => return fail(format!("mesh rejected: {}", sim::errstr(&e))),
        };
        let m = sim.mesh();
        cx.nontrivial();
        cx.label(if width < 1e-5 { "tiny" } else if width > 1e5 { "huge" } else { "medium" });
        let s = c.s;
        for (name, v) in [
            ("n_comp", s - 4),
            ("n_gc", 2),
            ("n_all", s),
            ("imin", 0),
            ("imax", s - 1),
            ("ixi_in", 2),
            ("ixi_out", s - 3),
        ] {
            need!(m.n(name) == v, "{name} = {}, expected {v}", m.n(name));
        }
        need!(!m.is_log && m.is_lin, "a Cartesian mesh is linear, not logarithmic");
        need!(m.s("xi_in") == x.xi_in && m.s("xi_out") == x.xi_out, "xi_in/xi_out differ from the configuration");
        let rel = |a: f64, b: f64, t: f64| (a - b).abs() <= t * b.abs();
        need!(rel(m.s("dxi"), r.dx, 1e-13 + 4.0 * res), "dxi = {:e}, expected {:e}", m.s("dxi"), r.dx);
        let (deta, dphi) = (m.s("deta"), m.s("dphi"));
        need!(deta == 1.0 && dphi == 1.0, "a 1D mesh has unit extent in eta and phi, got {deta} {dphi}");
        let tol = 8.0 * eps * big;
        let v = |n: &str| m.v(n).clone();
        for (_, w) in m.vecs.iter() {
            need!(w.len() == s, "a mesh vector has {} entries", w.len());
            need!(w.iter().all(|x| x.is_finite()), "non-finite geometry");
        }
        let (xw, xc, xe) = (v("xi_west"), v("xi_cent"), v("xi_east"));
        for i in 0..s {
            need!(close(xw[i], r.xw[i], tol), "xi_west[{i}] = {:e}, expected {:e}", xw[i], r.xw[i]);
            need!(close(xc[i], r.xc[i], tol), "xi_cent[{i}] = {:e}, expected {:e}", xc[i], r.xc[i]);
            need!(close(xe[i], r.xe[i], tol), "xi_east[{i}] = {:e}, expected {:e}", xe[i], r.xe[i]);
            need!(xw[i] < xc[i] && xc[i] < xe[i], "faces of cell {i} out of order");
            if i > 0 {
                need!(close(xe[i - 1], xw[i], tol), "gap between cells {} and {i}", i - 1);
            }
        }
        need!(close(xw[2], x.xi_in, tol), "the domain does not start at xi_in");
        need!(close(xe[s - 3], x.xi_out, tol), "the domain does not end at xi_out");
        for (inv, of) in [("xi_cent_inv", &xc), ("xi_west_inv", &xw), ("xi_east_inv", &xe)] {
            let inv_v = v(inv);
            for i in 0..s {
                need!(rel(inv_v[i] * of[i], 1.0, 1e-13), "{inv}[{i}] = {:e} for {:e}", inv_v[i], of[i]);
            }
        }
        let dx = r.dx;
        let t = 1e-13 + 4.0 * res;
        for i in 0..s {
            for h in [
                "h_xi_cent", "h_xi_west", "h_xi_east", "h_eta_cent", "h_eta_west", "h_eta_east", "h_phi_cent",
                "h_phi_west", "h_phi_east", "sqrt_g", "d_area_xi_deta_dphi_west", "d_area_xi_deta_dphi_east",
                "area_west", "area_east",
            ] {
                need!(m.v(h)[i] == 1.0, "{h}[{i}] = {:e} on a Cartesian mesh", m.v(h)[i]);
            }
            for (name, val) in [
                ("line_xi", dx),
                ("line_xi_inv", 1.0 / dx),
                ("volume", dx),
                ("deta_dphi_d_volume", 1.0 / dx),
                ("cell_width", dx),
                ("cell_width_inv", 1.0 / dx),
            ] {
                need!(rel(m.v(name)[i], val, t), "{name}[{i}] = {:e}, expected {val:e}", m.v(name)[i]);
            }
            need!(rel(m.v("line_xi")[i] * m.v("line_xi_inv")[i], 1.0, 1e-13), "line_xi_inv[{i}]");
            need!(rel(m.v("volume")[i] * m.v("deta_dphi_d_volume")[i], 1.0, 1e-13), "deta_dphi_d_volume[{i}]");
            need!(rel(m.v("cell_width")[i] * m.v("cell_width_inv")[i], 1.0, 2.0 * t), "cell_width_inv[{i}]");
            need!(rel(m.v("area_cell")[i], dx * dx, 2.0 * t), "area_cell[{i}] = {:e}", m.v("area_cell")[i]);
            need!(m.v("cexe")[i] == 0.0 && m.v("cpxp")[i] == 0.0, "curvature terms on a Cartesian mesh");
        }
        for n in ["cexe", "cpxp", "cxex", "cpep", "cxpx", "cepe"] {
            let minus = v(&format!("minus_{n}"));
            for i in 0..s {
                need!(minus[i] == -m.v(n)[i], "minus_{n}[{i}] = {:e} but {n}[{i}] = {:e}", minus[i], m.v(n)[i]);
            }
        }
        Ok(())
    };
    Property {
        id: "C01",
        rule: "mesh accepted and every vector of the geometry compared with the reference; distinct (S, domain)",
        parts: vec![part("geometry", 100_000, 2_000_000, strat, oracle)],
    }
}

// =====================================================================================================================
// C02, C03, C33: the three variable sets of a state against a model
// =====================================================================================================================

/// Random contents of a variable set
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fill {
    /// per cell density, velocity, pressure, sound speed
    cells: Vec<[f64; 4]>,
    junk: f64,
}
impl Fill {
    fn prim(&self, s: usize, e: usize) -> V2 {
        (0..e).map(|j| (0..s).map(|i| self.cells[i % self.cells.len()][j]).collect()).collect()
    }
    fn c(&self, s: usize) -> Vec<f64> {
        (0..s).map(|i| self.cells[i % self.cells.len()][3]).collect()
    }
    /// conservative variables that do not belong to prim but are valid
    fn other_cons(&self, s: usize, e: usize, gamma: f64) -> V2 {
        let n = self.cells.len();
        let p: V2 = (0..e).map(|j| (0..s).map(|i| self.cells[(i + 1) % n][j] * if j == 1 { -0.7 } else { 1.3 }).collect()).collect();
        refsol::to_cons(&p, gamma)
    }
    fn junk(&self, s: usize, e: usize, f: f64) -> V2 {
        (0..e).map(|j| (0..s).map(|i| self.junk * f * (1.0 + i as f64 + 10.0 * j as f64)).collect()).collect()
    }
}
fn fill() -> impl Strategy<Value = Fill> {
    let cell = |d: f64, c: f64, m: f64| {
        (-1.0f64..1.0, -1.0f64..1.0, -1.0f64..1.0, 0.1f64..10.0).prop_map(move |(a, b, p, cc)| {
            let rho = d * 10f64.powf(a);
            [rho, c * m * b, rho * c * c * 10f64.powf(p), cc * c]
        })
    };
    (-4.0f64..4.0, -4.0f64..4.0, prop_oneof![Just(0.0), Just(0.3), Just(1.0), Just(5.0)], 0.5f64..2.0)
        .prop_flat_map(move |(d, c, m, junk)| {
            (proptest::collection::vec(cell(10f64.powf(d), 10f64.powf(c), m), 3..9), Just(junk))
        })
        .prop_map(|(cells, junk)| Fill { cells, junk })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct StateCase {
    ad: bool,
    s: usize,
    gamma: f64,
    fills: Vec<Fill>,
    ops: Vec<Op>,
    bcw: Bc,
    bce: Bc,
}

fn d3() -> impl Strategy<Value = D> {
    proptest::sample::select(&ALL_D[..])
}
fn any_op() -> impl Strategy<Value = Op> {
    prop_oneof![
        d3().prop_map(Op::Prim),
        Just(Op::Prim0),
        d3().prop_map(Op::Cons),
        Just(Op::Cons0),
        d3().prop_map(Op::Derived),
        Just(Op::Derived0),
        d3().prop_map(Op::CSound),
        Just(Op::CSound0),
        d3().prop_map(Op::Eig),
        Just(Op::Eig0),
        d3().prop_map(Op::EigMin),
        Just(Op::EigMin0),
        d3().prop_map(Op::EigMax),
        Just(Op::EigMax0),
        d3().prop_map(Op::Flux),
        Just(Op::Flux0),
        d3().prop_map(Op::FromPrim),
        Just(Op::FromPrim0),
        d3().prop_map(Op::FromCons),
        Just(Op::FromCons0),
        Just(Op::InitWestEast),
        Just(Op::Assign),
        d3().prop_map(Op::AssignD),
        Just(Op::AssignCent),
        Just(Op::Swap),
    ]
}
fn state_case(ops: impl Strategy<Value = Vec<Op>> + 'static) -> BoxedStrategy<StateCase> {
    (
        any::<bool>(),
        proptest::sample::select(MIXED),
        prop_oneof![4 => Just(1.4), 4 => Just(5.0 / 3.0), 6 => 1.05f64..1.95, 1 => 1.001f64..1.05, 1 => 1.95f64..1.999],
        proptest::collection::vec(fill(), 6),
        ops,
        bc(2),
        bc(2),
    )
        .prop_map(|(ad, s, gamma, fills, ops, bcw, bce)| StateCase {
            ad,
            s,
            gamma,
            fills,
            ops,
            // conditions on equations 0 and 1 only: the remaining ghost cells must survive
            bcw,
            bce,
        })
        .boxed()
}

fn setup_state(c: &StateCase) -> Res<Box<dyn Sim>> {
    let mut x = base_scn(c.s, c.ad);
    x.gamma = c.gamma;
    x.bcw = c.bcw.clone();
    x.bce = c.bce.clone();
    let mut sim = x.build()?;
    let e = x.e();
    for k in 0..2 {
        for (d, f) in ALL_D.iter().zip(&c.fills[3 * k..3 * k + 3]) {
            sim.set_prim(*d, &f.prim(c.s, e));
            sim.set_cons(*d, &f.other_cons(c.s, e, c.gamma));
            sim.set_c(*d, &f.c(c.s));
            sim.set_junk(*d, &f.junk(c.s, e, 1.0), &f.junk(c.s, e, -3.0));
        }
        sim.op(Op::Swap);
    }
    Ok(sim)
}

fn snaps(sim: &dyn Sim) -> Vec<Snap> {
    ALL_D.iter().map(|d| sim.vars(*d)).collect()
}
fn di(d: D) -> usize {
    match d {
        D::West => 0,
        D::Cent => 1,
        D::East => 2,
    }
}

struct Model {
    gamma: f64,
    mesh: refsol::RefMesh,
    bcw: Bc,
    bce: Bc,
}

fn cmp2(what: &str, got: &V2, want: &V2, scale: &dyn Fn(usize, usize) -> f64, tol: f64) -> Res {
    for j in 0..want.len() {
        for i in 0..want[j].len() {
            let (g, w) = (got[j][i], want[j][i]);
            if g.is_nan() && w.is_nan() {
                continue;
            }
            let t = tol * scale(j, i).abs();
            need!(
                (g - w).abs() <= t || g == w,
                "{what}[{j}, {i}] = {g:e}, expected {w:e} (tolerance {t:e})"
            );
        }
    }
    Ok(())
}

impl Model {
    fn prim_scale(&self, p: &V2, c: &V2, j: usize, i: usize) -> f64 {
        match j {
            2 => (self.gamma - 1.0) * (c[2][i].abs() + (c[1][i] * c[1][i] / c[0][i]).abs()) + p[2][i].abs(),
            _ => p[j][i],
        }
    }
    fn cons_scale(&self, p: &V2, j: usize, i: usize) -> f64 {
        match j {
            0 => p[0][i],
            1 => p[0][i] * p[1][i],
            _ => p[2][i].abs() / (self.gamma - 1.0) + (p[0][i] * p[1][i] * p[1][i]).abs(),
        }
    }
    fn chk_prim(&self, b: &Snap, a: &Snap) -> Res {
        let want = refsol::to_prim(&b.cons, self.gamma);
        cmp2("prim", &a.prim, &want, &|j, i| self.prim_scale(&want, &b.cons, j, i), 1e-14)
    }
    fn chk_cons(&self, prim: &V2, a: &Snap) -> Res {
        let want = refsol::to_cons(prim, self.gamma);
        cmp2("cons", &a.cons, &want, &|j, i| self.cons_scale(prim, j, i), 1e-14)
    }
    fn chk_c(&self, prim: &V2, b: &Snap, a: &Snap) -> Res {
        if prim.len() == 3 {
            let want: Vec<f64> = (0..b.c.len()).map(|i| (self.gamma * prim[2][i] / prim[0][i]).sqrt()).collect();
            cmp2("c_sound", &vec![a.c.clone()], &vec![want.clone()], &|_, i| want[i], 1e-14)
        } else {
            need!(same_bits1(&a.c, &b.c), "the isothermal sound speed was changed");
            Ok(())
        }
    }
    fn chk_eig(&self, prim: &V2, c: &[f64], b: &Snap, a: &Snap, min: bool, mid: bool, max: bool) -> Res {
        let e = prim.len();
        for j in 0..e {
            for i in 0..c.len() {
                let v = prim[1][i];
                let (chk, want) = if j == 0 {
                    (min, v - c[i])
                } else if j == e - 1 {
                    (max, v + c[i])
                } else {
                    (mid, v)
                };
                let g = a.eig[j][i];
                if chk {
                    need!(
                        g == want || (g - want).abs() <= 1e-14 * (v.abs() + c[i]) || (g.is_nan() && want.is_nan()),
                        "eigen_vals[{j}, {i}] = {g:e}, expected {want:e}"
                    );
                } else {
                    need!(g.to_bits() == b.eig[j][i].to_bits(), "eigen_vals[{j}, {i}] was changed");
                }
            }
        }
        Ok(())
    }
    fn chk_flux(&self, b: &Snap, a: &Snap) -> Res {
        let mut want = refsol::flux(&b.prim, &b.cons, &b.c);
        // where primitive and conservative variables disagree, the flux depends on which of them is used
        let cons = refsol::to_cons(&b.prim, self.gamma);
        for i in 0..b.c.len() {
            let differ = (0..b.prim.len())
                .any(|j| !((b.cons[j][i] - cons[j][i]).abs() <= 1e-14 * self.cons_scale(&b.prim, j, i).abs()));
            if differ {
                for j in 0..b.prim.len() {
                    want[j][i] = a.flux[j][i];
                }
            }
        }
        cmp2(
            "flux",
            &a.flux,
            &want,
            &|j, i| match j {
                0 => want[0][i],
                1 => {
                    (b.cons[1][i] * b.prim[1][i]).abs()
                        + if b.prim.len() == 3 { b.prim[2][i].abs() } else { (b.prim[0][i] * b.c[i] * b.c[i]).abs() }
                },
                _ => (b.cons[2][i].abs() + b.prim[2][i].abs()) * b.prim[1][i],
            },
            1e-13,
        )
    }
    /// applies the boundary conditions to prim; None if some outflow condition is undecided
    fn bc(&self, prim: &V2) -> Option<V2> {
        let s = prim[0].len();
        for (b, i) in [(&self.bcw, 2), (&self.bce, s - 3)] {
            for (j, m) in refsol::modes(b, prim.len()) {
                if m.is_outflow() && !(prim[j][i].abs() > 0.0) {
                    return None;
                }
            }
        }
        let mut p = prim.clone();
        refsol::apply_bc(&mut p, &self.bcw, &self.bce, &self.mesh);
        Some(p)
    }
    fn chk_from_prim(&self, prim_in: &V2, scale: &dyn Fn(usize, usize) -> f64, b: &Snap, a: &Snap) -> Res {
        let Some(want) = self.bc(prim_in) else { return discard("outflow with zero velocity at the edge") };
        let s = want[0].len();
        // ghost values may be differences of interior values
        let sc = |j: usize, i: usize| {
            if i < 2 {
                scale(j, 2).abs().max(scale(j, 3).abs()).max(want[j][i].abs()) * 4.0
            } else if i >= s - 2 {
                scale(j, s - 3).abs().max(scale(j, s - 4).abs()).max(want[j][i].abs()) * 4.0
            } else {
                scale(j, i)
            }
        };
        cmp2("prim", &a.prim, &want, &sc, 1e-14)?;
        self.chk_cons(&a.prim, a)?;
        self.chk_c(&a.prim, b, a)?;
        self.chk_eig(&a.prim, &a.c, b, a, true, true, true)
    }

    /// Judges one operation: `b`/`a` are the three variable sets before/after, `so` those of the spare state
    fn judge(&self, op: Op, b: &[Snap], a: &[Snap], sb: &[Snap], sa: &[Snap]) -> Res {
        use Op::*;
        let cent = D::Cent;
        let same = |x: &Snap, y: &Snap, skip: &[&str], whr: &str| -> Res {
            for (n, eq) in [
                ("prim", same_bits(&x.prim, &y.prim)),
                ("cons", same_bits(&x.cons, &y.cons)),
                ("c_sound", same_bits1(&x.c, &y.c)),
                ("eigen_vals", same_bits(&x.eig, &y.eig)),
                ("flux", same_bits(&x.flux, &y.flux)),
                ("gamma", x.gamma.to_bits() == y.gamma.to_bits()),
            ] {
                need!(eq || skip.contains(&n), "{op:?} changed {n} {whr}");
            }
            Ok(())
        };
        if op == Swap {
            for k in 0..3 {
                need!(b[k].diff(&sa[k]).is_none() && a[k].diff(&sb[k]).is_none(), "swap lost data");
            }
            return Ok(());
        }
        for k in 0..3 {
            same(&sb[k], &sa[k], &[], "of an unrelated state")?;
        }
        let (d, skip): (Vec<D>, &[&str]) = match op {
            Prim(d) => (vec![d], &["prim"]),
            Prim0 => (vec![cent], &["prim"]),
            Cons(d) => (vec![d], &["cons"]),
            Cons0 => (vec![cent], &["cons"]),
            Derived(d) => (vec![d], &["c_sound", "eigen_vals"]),
            Derived0 => (vec![cent], &["c_sound", "eigen_vals"]),
            CSound(d) => (vec![d], &["c_sound"]),
            CSound0 => (vec![cent], &["c_sound"]),
            Eig(d) | EigMin(d) | EigMax(d) => (vec![d], &["eigen_vals"]),
            Eig0 | EigMin0 | EigMax0 => (vec![cent], &["eigen_vals"]),
            Flux(d) => (vec![d], &["flux"]),
            Flux0 => (vec![cent], &["flux"]),
            FromPrim(d) | FromCons(d) => (vec![d], &["prim", "cons", "c_sound", "eigen_vals"]),
            FromPrim0 | FromCons0 => (vec![cent], &["prim", "cons", "c_sound", "eigen_vals"]),
            // whether eigen values and fluxes are copied as well is not specified
            InitWestEast => (vec![D::West, D::East], &["prim", "cons", "c_sound", "eigen_vals", "flux"]),
            Assign => (ALL_D.to_vec(), &["prim", "cons", "c_sound", "eigen_vals", "flux"]),
            AssignD(d) => (vec![d], &["prim", "cons", "c_sound", "eigen_vals", "flux"]),
            AssignCent => (vec![cent], &["prim", "cons", "c_sound", "eigen_vals", "flux"]),
            Swap => unreachable!(),
        };
        for x in ALL_D {
            let k = di(x);
            if d.contains(&x) {
                same(&b[k], &a[k], skip, &format!("at {x:?}"))?;
            } else {
                same(&b[k], &a[k], &[], &format!("at {x:?}"))?;
            }
        }
        for x in d {
            let k = di(x);
            let (b1, a1) = (&b[k], &a[k]);
            let r = match op {
                Prim(_) | Prim0 => self.chk_prim(b1, a1),
                Cons(_) | Cons0 => self.chk_cons(&b1.prim, a1),
                Derived(_) | Derived0 => self
                    .chk_c(&b1.prim, b1, a1)
                    .and_then(|_| self.chk_eig(&b1.prim, &a1.c, b1, a1, true, true, true)),
                CSound(_) | CSound0 => self.chk_c(&b1.prim, b1, a1),
                Eig(_) | Eig0 => self.chk_eig(&b1.prim, &b1.c, b1, a1, true, true, true),
                EigMin(_) | EigMin0 => self.chk_eig(&b1.prim, &b1.c, b1, a1, true, false, false),
                EigMax(_) | EigMax0 => self.chk_eig(&b1.prim, &b1.c, b1, a1, false, false, true),
                Flux(_) | Flux0 => self.chk_flux(b1, a1),
                FromPrim(_) | FromPrim0 => {
                    self.chk_from_prim(&b1.prim, &|j, i| b1.prim[j][i], b1, a1).and_then(|_| {
                        for j in 0..b1.prim.len() {
                            for i in 2..b1.c.len() - 2 {
                                need!(
                                    b1.prim[j][i].to_bits() == a1.prim[j][i].to_bits(),
                                    "{op:?} changed prim[{j}, {i}] inside of the domain"
                                );
                            }
                        }
                        Ok(())
                    })
                },
                FromCons(_) | FromCons0 => {
                    let p = refsol::to_prim(&b1.cons, self.gamma);
                    self.chk_from_prim(&p, &|j, i| self.prim_scale(&p, &b1.cons, j, i), b1, a1)
                },
                InitWestEast | Assign | AssignD(_) | AssignCent => {
                    let src = if op == InitWestEast { &b[1] } else { &sb[k] };
                    need!(same_bits(&src.prim, &a1.prim), "{op:?} did not copy prim at {x:?}");
                    need!(same_bits(&src.cons, &a1.cons), "{op:?} did not copy cons at {x:?}");
                    need!(same_bits1(&src.c, &a1.c), "{op:?} did not copy c_sound at {x:?}");
                    need!(
                        same_bits(&a1.eig, &b1.eig) || same_bits(&a1.eig, &src.eig),
                        "{op:?} mangled eigen_vals at {x:?}"
                    );
                    need!(
                        same_bits(&a1.flux, &b1.flux) || same_bits(&a1.flux, &src.flux),
                        "{op:?} mangled flux at {x:?}"
                    );
                    Ok(())
                },
                Swap => unreachable!(),
            };
            match r {
                Err(Stop::Fail(m)) => return fail(format!("{op:?}: {m}")),
                x => x?,
            }
        }
        Ok(())
    }
}

fn run_ops(c: &StateCase, cx: &mut Cx) -> Res {
    let mut sim = setup_state(c)?;
    let model = Model {
        gamma: c.gamma,
        mesh: refsol::mesh(3.3, 4.3, c.s),
        bcw: c.bcw.clone(),
        bce: c.bce.clone(),
    };
    for (n, op) in c.ops.iter().enumerate() {
        let b = snaps(&*sim);
        sim.op(Op::Swap);
        let sb = snaps(&*sim);
        sim.op(Op::Swap);
        sim.op(*op);
        let a = snaps(&*sim);
        sim.op(Op::Swap);
        let sa = snaps(&*sim);
        sim.op(Op::Swap);
        match model.judge(*op, &b, &a, &sb, &sa) {
            Err(Stop::Fail(m)) => return fail(format!("operation {n}: {m}")),
            x => x?,
        }
        cx.label(format!("{op:?}"));
    }
    cx.nontrivial();
    Ok(())
}

pub fn c33() -> Property {
    Property {
        id: "C33",
        rule: "a sequence of operations applied and every variable of both states compared after every operation; \
               distinct sequences and contents",
        parts: vec![part(
            "sequences",
            60_000,
            1_200_000,
            || state_case(proptest::collection::vec(any_op(), 1..14)),
            run_ops,
        )],
    }
}

pub fn c02() -> Property {
    let round_trip = |c: &StateCase, cx: &mut Cx| -> Res {
        let mut sim = setup_state(c)?;
        let g = c.gamma;
        for (k, d) in ALL_D.iter().enumerate() {
            let others: Vec<D> = ALL_D.iter().cloned().filter(|x| x != d).collect();
            let b = sim.vars(*d);
            let ob: Vec<Snap> = others.iter().map(|o| sim.vars(*o)).collect();
            sim.op(Op::Cons(*d));
            let m = sim.vars(*d);
            need!(same_bits(&b.prim, &m.prim), "converting to conservative variables changed the primitive ones");
            let s = c.s;
            for i in 0..s {
                let (r, v) = (b.prim[0][i], b.prim[1][i]);
                need!(m.cons[0][i] == r, "{d:?}: conservative density {:e}, expected {r:e}", m.cons[0][i]);
                need!(
                    close(m.cons[1][i], r * v, 1e-15 * (r * v).abs()),
                    "{d:?}: momentum {:e}, expected {:e}",
                    m.cons[1][i],
                    r * v
                );
                if c.ad {
                    let w = b.prim[2][i] / (g - 1.0) + 0.5 * r * v * v;
                    need!(close(m.cons[2][i], w, 1e-14 * w), "{d:?}: energy {:e}, expected {w:e}", m.cons[2][i]);
                }
            }
            sim.op(Op::Prim(*d));
            let a = sim.vars(*d);
            need!(same_bits(&a.cons, &m.cons), "converting to primitive variables changed the conservative ones");
            for i in 0..s {
                need!(a.prim[0][i] == b.prim[0][i], "{d:?}: density does not round-trip");
                need!(
                    close(a.prim[1][i], b.prim[1][i], 1e-14 * b.prim[1][i].abs()),
                    "{d:?}: velocity {:e} -> {:e}",
                    b.prim[1][i],
                    a.prim[1][i]
                );
                if c.ad {
                    let t = 2e-14 * (g - 1.0) * m.cons[2][i];
                    need!(
                        close(a.prim[2][i], b.prim[2][i], t),
                        "{d:?}: pressure {:e} -> {:e}",
                        b.prim[2][i],
                        a.prim[2][i]
                    );
                }
            }
            // the other way round
            let cons = c.fills[3 + k].other_cons(s, sim.e(), g);
            sim.set_cons(*d, &cons);
            sim.op(Op::Prim(*d));
            let p = sim.vars(*d);
            sim.op(Op::Cons(*d));
            let q = sim.vars(*d);
            need!(same_bits(&p.prim, &q.prim), "converting to conservative variables changed the primitive ones");
            for j in 0..sim.e() {
                for i in 0..s {
                    need!(
                        close(q.cons[j][i], cons[j][i], 2e-14 * cons[j][i].abs()),
                        "{d:?}: conservative variable {j}: {:e} -> {:e}",
                        cons[j][i],
                        q.cons[j][i]
                    );
                }
            }
            for (o, b) in others.iter().zip(ob) {
                if let Some(f) = sim.vars(*o).diff(&b) {
                    return fail(format!("converting at {d:?} changed {f} at {o:?}"));
                }
            }
        }
        cx.label(if c.ad { "adiabatic" } else { "isothermal" });
        cx.nontrivial();
        Ok(())
    };
    let conv_ops = || {
        proptest::collection::vec(
            prop_oneof![
                d3().prop_map(Op::Prim),
                d3().prop_map(Op::Cons),
                Just(Op::Prim0),
                Just(Op::Cons0),
                d3().prop_map(Op::FromCons),
                d3().prop_map(Op::FromPrim)
            ],
            1..6,
        )
    };
    Property {
        id: "C02",
        rule: "conversions of a whole state at all three locations checked; distinct states",
        parts: vec![
            part("round-trip", 75_000, 1_500_000, || state_case(Just(vec![])), round_trip),
            part("sequences", 40_000, 800_000, move || state_case(conv_ops()), run_ops),
        ],
    }
}

pub fn c03() -> Property {
    let ops = || {
        proptest::collection::vec(
            prop_oneof![
                d3().prop_map(Op::CSound),
                d3().prop_map(Op::Derived),
                d3().prop_map(Op::Eig),
                d3().prop_map(Op::EigMin),
                d3().prop_map(Op::EigMax),
                d3().prop_map(Op::Flux),
                Just(Op::CSound0),
                Just(Op::Derived0),
                Just(Op::Eig0),
                Just(Op::EigMin0),
                Just(Op::EigMax0),
                Just(Op::Flux0),
            ],
            1..8,
        )
    };
    // all quantities of a consistent state, including the order of the wave speeds and the named accessors
    let consistent = |c: &StateCase, cx: &mut Cx| -> Res {
        let mut sim = setup_state(c)?;
        let e = sim.e();
        for d in ALL_D {
            for op in [Op::Cons(d), Op::Derived(d), Op::Flux(d)] {
                sim.op(op);
            }
            let v = sim.vars(d);
            let acc = sim.accessors(d);
            let zero = vec![0.0; c.s];
            let want: Vec<&Vec<f64>> = vec![
                &v.prim[0],
                &v.cons[0],
                &v.prim[1],
                &v.cons[1],
                &zero,
                &zero,
                if e == 3 { &v.prim[2] } else { &zero },
                if e == 3 { &v.cons[2] } else { &zero },
            ];
            for (k, (x, y)) in acc.iter().zip(want).enumerate() {
                need!(same_bits1(x, y), "named accessor {k} at {d:?} returns the wrong variable");
            }
            for i in 0..c.s {
                let (r, u) = (v.prim[0][i], v.prim[1][i]);
                let p = if c.ad { v.prim[2][i] } else { r * v.c[i] * v.c[i] };
                if c.ad {
                    let w = (c.gamma * p / r).sqrt();
                    need!(close(v.c[i], w, 1e-14 * w), "sound speed {:e}, expected {w:e}", v.c[i]);
                }
                need!(v.eig[0][i] <= u && u <= v.eig[e - 1][i], "wave speeds out of order");
                let sc = r * u * u + p;
                need!(close(v.flux[0][i], r * u, 1e-14 * (r * u).abs()), "mass flux {:e}", v.flux[0][i]);
                need!(close(v.flux[1][i], r * u * u + p, 1e-14 * sc), "momentum flux {:e}", v.flux[1][i]);
                if c.ad {
                    let h = p / (c.gamma - 1.0) + 0.5 * r * u * u + p;
                    need!(close(v.flux[2][i], h * u, 2e-14 * (h * u).abs()), "energy flux {:e}", v.flux[2][i]);
                }
            }
        }
        cx.label(if c.ad { "adiabatic" } else { "isothermal" });
        cx.nontrivial();
        Ok(())
    };
    // the values in use after right-hand sides and time steps
    let in_use = |x: &Scn, cx: &mut Cx| -> Res {
        let mut sim = x.build()?;
        sim.ts().t_next_output = f64::MAX;
        let model = Model {
            gamma: x.gamma,
            mesh: refsol::mesh(x.xi_in, x.xi_out, x.s),
            bcw: x.bcw.clone(),
            bce: x.bce.clone(),
        };
        let chk = |sim: &dyn Sim, after: &str| -> Res {
            let v = sim.vars(D::Cent);
            let mut nb = v.clone();
            if !x.ad {
                nb.c = x.c_iso();
            }
            let r = model
                .chk_c(&v.prim, &nb, &v)
                .and_then(|_| model.chk_eig(&v.prim, &v.c, &v, &v, true, true, true))
                .and_then(|_| model.chk_cons(&v.prim, &v));
            match r {
                Err(Stop::Fail(m)) => fail(format!("after {after}: {m}")),
                r => r,
            }
        };
        chk(&*sim, "initialisation")?;
        let r = sim.rhs_update();
        chk(&*sim, "an update of the right-hand side")?;
        if r.is_err() {
            return discard("right-hand side failed");
        }
        if x.fx.is_hll() {
            let v = sim.vars(D::Cent);
            model.chk_flux(&v, &v)?;
        } else {
            for d in [D::West, D::East] {
                let mut v = sim.vars(d);
                // only the faces next to computational cells are used
                for f in [&mut v.prim, &mut v.cons, &mut v.flux, &mut v.eig] {
                    for r in f.iter_mut() {
                        *r = r[1..x.s - 1].to_vec();
                    }
                }
                v.c = v.c[1..x.s - 1].to_vec();
                if v.c.iter().any(|c| !c.is_finite()) {
                    return discard("unphysical face values");
                }
                let mut nb = v.clone();
                if !x.ad {
                    nb.c = x.c_iso()[1..x.s - 1].to_vec();
                }
                model.chk_prim(&v, &v)?;
                model.chk_c(&v.prim, &nb, &v)?;
                model.chk_eig(&v.prim, &v.c, &v, &v, true, false, true)?;
                model.chk_flux(&v, &v)?;
            }
        }
        if sim.step().is_err() {
            return discard("step failed");
        }
        chk(&*sim, "a time step")?;
        cx.label(x.fx.name());
        cx.nontrivial();
        Ok(())
    };
    Property {
        id: "C03",
        rule: "all derived quantities of a valid state compared in every cell; distinct states",
        parts: vec![
            part("consistent", 62_500, 1_250_000, || state_case(Just(vec![])), consistent),
            part("sequences", 50_000, 1_000_000, move || state_case(ops()), run_ops),
            part(
                "in-use",
                50_000,
                1_000_000,
                || scn(Opt { sizes: MIXED, ..Default::default() }),
                in_use,
            ),
        ],
    }
}

// =====================================================================================================================
// C04 boundary conditions
// =====================================================================================================================

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BcCase {
    ad: bool,
    s: usize,
    bcw: Bc,
    bce: Bc,
    k: f64,
    width: f64,
    d: D,
    fill: Fill,
    /// 0: as is, 1: some negative values, 2: zeros
    wild: Vec<f64>,
    /// the mesh is flagged as logarithmic
    #[serde(default)]
    log: bool,
}

/// Ghost values on meshes that are flagged as logarithmic: extrapolation continues the ratio of the values
fn log_ghost(mode: Bm, near: f64, far: f64, x: [f64; 3], inward: f64) -> [f64; 2] {
    let into = near.is_sign_negative() == (inward < 0.0);
    match mode {
        Bm::Extrapolate => (),
        Bm::OutflowExtrapolate if !into => (),
        _ => return refsol::ghost(mode, near, far, x, inward),
    }
    if (1.0 / near).is_finite() && (1.0 / far).is_finite() {
        let r = (near / far).abs();
        [near * r, near * (r * r)]
    } else {
        [0.0, 0.0]
    }
}

pub fn c04() -> Property {
    let strat = || {
        let any_bc = |e: usize| {
            prop_oneof![
                1 => Just(None),
                7 => proptest::sample::subsequence((0..e).collect::<Vec<_>>(), 0..=e)
                    .prop_shuffle()
                    .prop_flat_map(|js| {
                        let n = js.len();
                        (Just(js), proptest::collection::vec(proptest::sample::select(&ALL_BM[..]), n))
                    })
                    .prop_map(|(js, ms)| Some(js.into_iter().zip(ms).collect::<Vec<_>>())),
            ]
        };
        (
            any::<bool>().prop_flat_map(move |ad| {
                let e = if ad { 3 } else { 2 };
                (Just(ad), any_bc(e), any_bc(e))
            }),
            proptest::sample::select(MIXED),
            prop_oneof![3 => 3.1f64..30.0, 1 => 1000.1f64..100000.0],
            logu(1e-6, 1e6),
            d3(),
            fill(),
            proptest::collection::vec(
                prop_oneof![8 => Just(1.0), 4 => Just(-1.0), 2 => Just(0.0), 1 => proptest::sample::select(vec![1e-318, -1e-318, 1e-200, -0.0])],
                7,
            ),
            proptest::bool::weighted(0.15),
        )
            .prop_map(|((ad, bcw, bce), s, k, width, d, fill, wild, log)| BcCase {
                ad,
                s,
                bcw,
                bce,
                k,
                width,
                d,
                fill,
                wild,
                log,
            })
    };
    let oracle = |c: &BcCase, cx: &mut Cx| -> Res {
        let mut x = base_scn(c.s, c.ad);
        let dx = c.width / (c.s - 4) as f64;
        x.xi_in = c.k * dx;
        x.xi_out = x.xi_in + c.width;
        x.bcw = c.bcw.clone();
        x.bce = c.bce.clone();
        let mut sim = x.build()?;
        if c.log {
            sim.set_logarithmic();
        }
        let m = refsol::mesh(x.xi_in, x.xi_out, c.s);
        let (s, e) = (c.s, x.e());
        let mut prim = c.fill.prim(s, e);
        for j in 0..e {
            for i in 0..s {
                let w = c.wild[(3 * i + j) % c.wild.len()];
                // conversions of tiny numbers lose digits
                prim[j][i] *= if !c.log && w != 0.0 && w.abs() < 1e-100 { 1.0 } else { w };
            }
        }
        let coarse = f64::EPSILON * m.xe[s - 1] / m.dx;
        for west in [true, false] {
            // fresh contents everywhere
            for d in ALL_D {
                sim.set_prim(d, &prim);
                sim.set_cons(d, &c.fill.other_cons(s, e, 1.4));
                sim.set_c(d, &c.fill.c(s));
                sim.set_junk(d, &c.fill.junk(s, e, 1.0), &c.fill.junk(s, e, 2.0));
            }
            let b = snaps(&*sim);
            sim.boundary(west, c.d);
            let a = snaps(&*sim);
            for (k, d) in ALL_D.iter().enumerate() {
                let df = a[k].diff(&b[k]);
                if *d != c.d {
                    need!(df.is_none(), "applying the condition at {:?} changed {df:?} at {d:?}", c.d);
                } else {
                    let mut a2 = a[k].clone();
                    a2.prim = b[k].prim.clone();
                    need!(a2.diff(&b[k]).is_none(), "applying the condition changed {:?}", a2.diff(&b[k]));
                }
            }
            let got = &a[di(c.d)].prim;
            let modes = refsol::modes(if west { &c.bcw } else { &c.bce }, e);
            for j in 0..e {
                let edge = if west { [1, 0] } else { [s - 2, s - 1] };
                for i in 0..s {
                    let touched = edge.contains(&i) && modes.iter().any(|x| x.0 == j);
                    need!(
                        touched || got[j][i].to_bits() == prim[j][i].to_bits(),
                        "{} condition changed prim[{j}, {i}] from {:e} to {:e}",
                        if west { "west" } else { "east" },
                        prim[j][i],
                        got[j][i]
                    );
                }
                let Some((_, mode)) = modes.iter().find(|x| x.0 == j) else { continue };
                let (near, far, xs, inward) = if west {
                    (prim[j][2], prim[j][3], [m.xc[2], m.xc[1], m.xc[0]], 1.0)
                } else {
                    (prim[j][s - 3], prim[j][s - 4], [m.xc[s - 3], m.xc[s - 2], m.xc[s - 1]], -1.0)
                };
                if mode.is_outflow() && near == 0.0 {
                    cx.label("undecided outflow");
                    continue;
                }
                let want = if c.log { log_ghost(*mode, near, far, xs, inward) } else { refsol::ghost(*mode, near, far, xs, inward) };
                for (n, i) in edge.iter().enumerate() {
                    if !want[n].is_finite() {
                        cx.label("overflow");
                        continue;
                    }
                    let sc = if c.log {
                        want[n].abs().max(f64::MIN_POSITIVE)
                    } else if matches!(mode, Bm::Extrapolate | Bm::OutflowExtrapolate) && want[n] != -near && want[n] != -far {
                        near.abs().max(far.abs())
                    } else {
                        want[n].abs()
                    };
                    let tol = if mode.is_kepler() { 1e-13 + 100.0 * coarse } else { 8.0 * f64::EPSILON };
                    need!(
                        close(got[j][*i], want[n], tol * sc + 1e-320),
                        "{mode:?} at the {} edge: ghost cell {i} of equation {j} = {:e}, expected {:e}",
                        if west { "west" } else { "east" },
                        got[j][*i],
                        want[n]
                    );
                }
                cx.label(format!("{mode:?}"));
            }
        }
        if c.log {
            cx.label("logarithmic");
            cx.nontrivial();
            return Ok(());
        }
        // through the updates, everything agrees afterwards
        for op in [Op::FromPrim(c.d), Op::FromPrim0, Op::FromCons(c.d), Op::FromCons0] {
            let model = Model {
                gamma: 1.4,
                mesh: refsol::mesh(x.xi_in, x.xi_out, c.s),
                bcw: c.bcw.clone(),
                bce: c.bce.clone(),
            };
            for d in ALL_D {
                sim.set_prim(d, &prim);
                // the current ghost cells matter where there is no condition
                sim.set_cons(d, &c.fill.other_cons(s, e, 1.4));
            }
            let kepler = modes_of(&c.bcw, &c.bce, e).iter().any(|m| m.is_kepler());
            if kepler && coarse > 1e-16 * 4.0 {
                // the model's tolerance assumes well resolved coordinates
                cx.label("kepler, updates not judged");
                continue;
            }
            let b = snaps(&*sim);
            let sb = b.clone();
            sim.op(op);
            let a = snaps(&*sim);
            match model.judge(op, &b, &a, &sb, &sb) {
                Err(Stop::Discard(_)) => cx.label("undecided outflow"),
                r => r?,
            }
        }
        cx.nontrivial();
        Ok(())
    };
    Property {
        id: "C04",
        rule: "both edges applied to a random state and every cell compared; distinct modes and states",
        parts: vec![part("edges", 120_000, 2_400_000, strat, oracle)],
    }
}
fn modes_of(w: &Bc, e: &Bc, n: usize) -> Vec<Bm> {
    refsol::modes(w, n).into_iter().chain(refsol::modes(e, n)).map(|x| x.1).collect()
}

// =====================================================================================================================
// C25 units
// =====================================================================================================================

#[derive(Clone, Debug, Serialize, Deserialize)]
struct UnitCase {
    cgs: bool,
    x: f64,
    y: f64,
}

pub fn c25() -> Property {
    let strat = || {
        let v = || {
            prop_oneof![
                3 => logu(1e-30, 1e30),
                1 => logu(1e-30, 1e30).prop_map(|x| -x),
                1 => Just(0.0),
                1 => Just(1.0),
            ]
        };
        (any::<bool>(), v(), v()).prop_map(|(cgs, x, y)| UnitCase { cgs, x, y })
    };
    let oracle = |c: &UnitCase, cx: &mut Cx| -> Res {
        let mode = || if c.cgs { UnitsMode::CGS } else { UnitsMode::SI };
        let u = Units::new(mode());
        // factor to SI and to CGS of one unit of this system: metres, kilograms, seconds
        type F = fn(&Units, f64) -> f64;
        let table: [(&str, F, f64); 6] = [
            ("length to SI", Units::convert_length_to_si, if c.cgs { 0.01 } else { 1.0 }),
            ("mass to SI", Units::convert_mass_to_si, if c.cgs { 0.001 } else { 1.0 }),
            ("time to SI", Units::convert_time_to_si, 1.0),
            ("length to CGS", Units::convert_length_to_cgs, if c.cgs { 1.0 } else { 100.0 }),
            ("mass to CGS", Units::convert_mass_to_cgs, if c.cgs { 1.0 } else { 1000.0 }),
            ("time to CGS", Units::convert_time_to_cgs, 1.0),
        ];
        for (name, f, factor) in table {
            let got = f(&u, c.x);
            need!(
                close(got, c.x * factor, 4.0 * f64::EPSILON * (c.x * factor).abs()),
                "{name} in {:?}: {:e} -> {got:e}, expected {:e}",
                mode(),
                c.x,
                c.x * factor
            );
            let (a, b, ab) = (got, f(&u, c.y), f(&u, c.x + c.y));
            need!(
                close(a + b, ab, 16.0 * f64::EPSILON * (a.abs() + b.abs())),
                "{name} in {:?} is not linear: f({:e}) + f({:e}) != f(sum)",
                mode(),
                c.x,
                c.y
            );
        }
        cx.label(if c.cgs { "CGS" } else { "SI" });
        if c.x != 0.0 {
            cx.nontrivial();
        }
        Ok(())
    };
    Property {
        id: "C25",
        rule: "non-zero value converted by all six conversions",
        parts: vec![part("conversions", 160_000, 3_200_000, strat, oracle)],
    }
}

// =====================================================================================================================
// C28 initialisation
// =====================================================================================================================

#[derive(Clone, Debug, Serialize, Deserialize)]
struct InitCase {
    x: Scn,
    fail: bool,
}

pub fn c28() -> Property {
    let strat = || {
        (
            scn(Opt { sizes: MEDIUM, amp: 4.0, mach: 5.0, asc: true, ..Default::default() }),
            prop_oneof![5 => Just(false), 1 => Just(true)],
        )
            .prop_map(|(x, fail)| InitCase { x, fail })
    };
    let oracle = |c: &InitCase, cx: &mut Cx| -> Res {
        let x = &c.x;
        let mut data = x.init();
        if c.fail {
            data.fail = Some("no initial condition today".to_string());
            match sim::build(&x.conf(), x.ad, x.s, data) {
                Ok(_) => return fail("the error of the user's function got lost"),
                Err(e) => {
                    need!(
                        sim::errstr(&e).contains("no initial condition today"),
                        "the error returned is not the one of the user's function: {}",
                        sim::errstr(&e)
                    );
                },
            }
            cx.label("failing init");
            cx.nontrivial();
            return Ok(());
        }
        let mut sim = x.build()?;
        let v = sim.vars(D::Cent);
        let set = x.prim();
        for j in 0..x.e() {
            for i in 2..x.s - 2 {
                need!(
                    v.prim[j][i].to_bits() == set[j][i].to_bits(),
                    "prim[{j}, {i}] = {:e} after initialisation, set to {:e}",
                    v.prim[j][i],
                    set[j][i]
                );
            }
        }
        need!(v.gamma == x.gamma, "gamma = {} instead of {}", v.gamma, x.gamma);
        let model = Model {
            gamma: x.gamma,
            mesh: refsol::mesh(x.xi_in, x.xi_out, x.s),
            bcw: x.bcw.clone(),
            bce: x.bce.clone(),
        };
        let mut b = v.clone();
        if !x.ad {
            b.c = x.c_iso();
        }
        match model.chk_from_prim(&set, &|j, i| set[j][i], &b, &v) {
            Err(Stop::Discard(_)) => cx.label("undecided outflow"),
            r => r?,
        }
        for d in [D::West, D::East] {
            let w = sim.vars(d);
            need!(
                same_bits(&w.prim, &v.prim) && same_bits(&w.cons, &v.cons) && same_bits1(&w.c, &v.c),
                "the variables at {d:?} differ from those at the centre"
            );
            need!(w.gamma == x.gamma, "gamma = {} at {d:?}", w.gamma);
        }
        need!(sim.is_adiabatic() == x.ad, "is_adiabatic() = {}", !x.ad);
        let ts = sim.ts();
        need!(ts.iter == 0 && ts.iter_max == x.iter_max, "iter = {}, iter_max = {}", ts.iter, ts.iter_max);
        need!(
            ts.t == x.t0 && ts.t_end == x.t_end && ts.dt_min == x.dt_min,
            "t = {:e}, t_end = {:e}, dt_min = {:e}",
            ts.t,
            ts.t_end,
            ts.dt_min
        );
        need!(ts.dt_kind == DtKind::Init && ts.dt == 0.0, "dt_kind = {:?}, dt = {:e}", ts.dt_kind, ts.dt);
        need!(ts.t_next_output == x.t0, "first output scheduled for {:e}", ts.t_next_output);
        if x.n_out > 0 {
            let w = (x.t_end - x.t0) / x.n_out as f64;
            need!(close(ts.dt_output, w, 1e-14 * w.abs()), "dt_output = {:e}, expected {w:e}", ts.dt_output);
        }
        need!(sim.writer().output_counter == 0, "output counter = {}", sim.writer().output_counter);
        need!(sim.rhs().iter().flatten().all(|x| *x == 0.0), "the right-hand side is not zero before the first update");
        cx.label(if x.ad { "adiabatic" } else { "isothermal" });
        cx.nontrivial();
        Ok(())
    };
    Property {
        id: "C28",
        rule: "initialised simulation compared with what the user's function set; distinct scenarios",
        parts: vec![part("init", 150_000, 3_000_000, strat, oracle)],
    }
}

// =====================================================================================================================
// C29 ready-made set-ups and default constructors
// =====================================================================================================================

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SetupCase {
    s: usize,
    ad: bool,
    noh: bool,
    fill: Fill,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DefaultCase {
    t_end: f64,
    folder: String,
    file: String,
    n_eq: usize,
    names: Vec<u8>,
    ad: bool,
    hll: bool,
    noh: bool,
}

pub fn data_name(k: u8) -> DataName {
    match k % 14 {
        0 => DataName::XiCent,
        1 => DataName::XiWest,
        2 => DataName::XiEast,
        3 => DataName::Prim(0),
        4 => DataName::Prim(1),
        5 => DataName::Prim(2),
        6 => DataName::Cons(0),
        7 => DataName::Cons(1),
        8 => DataName::Cons(2),
        9 => DataName::CSound,
        10 => DataName::T,
        11 => DataName::Iter,
        12 => DataName::Dt,
        _ => DataName::DtKind,
    }
}

/// A physics the ready-made set-ups know nothing about
mod exotic {
    use color_eyre::Result;
    use corries::prelude::*;
    use corries::variables::Variables;
    pub struct Exotic;
    impl<const S: usize> Physics<3, S> for Exotic {
        const NUM_EQ: usize = 3;
        const IS_ADIABATIC: bool = true;
        const JRHO: usize = 0;
        const JXI: usize = 1;
        const JETA: usize = usize::MAX;
        const JPRESSURE: usize = 2;
        fn new() -> Self {
            Self
        }
        fn name() -> String {
            "Exotic".to_string()
        }
        fn update_prim(_: &mut Variables<3, S>) {}
        fn update_cons(_: &mut Variables<3, S>) {}
        fn update_flux(_: &mut Variables<3, S>) {}
        fn validate(_: &Variables<3, S>) -> Result<()> {
            Ok(())
        }
    }
}

pub fn c29() -> Property {
    let strat = || {
        (proptest::sample::select(&SIZES[..]), any::<bool>(), any::<bool>(), fill()).prop_map(|(s, ad, noh, fill)| {
            SetupCase { s, ad, noh, fill }
        })
    };
    let oracle = |c: &SetupCase, cx: &mut Cx| -> Res {
        let x = base_scn(c.s, c.ad);
        let mut sim = x.build()?;
        let (s, e) = (c.s, x.e());
        sim.set_prim(D::Cent, &c.fill.prim(s, e));
        sim.set_c(D::Cent, &c.fill.c(s));
        let r = sim.setup(c.noh);
        if !c.noh && !c.ad {
            need!(r.is_err(), "init_sod accepts isothermal physics");
            cx.nontrivial();
            return Ok(());
        }
        if let Err(err) = r {
            return fail(format!("set-up failed: {}", sim::errstr(&err)));
        }
        let v = sim.vars(D::Cent);
        for i in 0..s {
            let left = i < s / 2;
            let want = match (c.noh, left) {
                (true, true) => [1.0, 1.0, 1e-5],
                (true, false) => [1.0, -1.0, 1e-5],
                (false, true) => [1.0, 0.0, 1.0],
                (false, false) => [0.125, 0.0, 0.1],
            };
            for j in 0..e {
                need!(v.prim[j][i] == want[j], "prim[{j}, {i}] = {:e}, expected {:e}", v.prim[j][i], want[j]);
            }
            if !c.ad {
                need!(v.c[i] == 1.0, "sound speed of the isothermal Noh problem = {:e}", v.c[i]);
            }
        }
        // other physics are refused
        type N = corries::rhs::numflux::Hll<3, 6>;
        type T = RungeKuttaFehlberg<exotic::Exotic, 3, 6>;
        let mut xc = x.conf();
        xc.mesh_config.xi_in = 1.0;
        let f = if c.noh {
            corries::initfuncs::init_noh::<exotic::Exotic, N, T, 3, 6>
        } else {
            corries::initfuncs::init_sod::<exotic::Exotic, N, T, 3, 6>
        };
        need!(
            xc.init_corries::<exotic::Exotic, N, T, 3, 6>(f).is_err(),
            "a set-up accepts physics it does not support"
        );
        cx.label(if c.noh { "noh" } else { "sod" });
        cx.nontrivial();
        Ok(())
    };
    let dstrat = || {
        (
            prop_oneof![logu(1e-6, 1e6), 0.001f64..0.05],
            "[a-z]{1,6}",
            "[a-z_0-9]{1,8}",
            0usize..6,
            proptest::collection::vec(any::<u8>(), 0..6),
            any::<bool>(),
            any::<bool>(),
            any::<bool>(),
        )
            .prop_map(|(t_end, folder, file, n_eq, names, ad, hll, noh)| DefaultCase {
                t_end,
                folder,
                file,
                n_eq,
                names,
                ad,
                hll,
                noh: noh || !ad,
            })
    };
    let doracle = |c: &DefaultCase, cx: &mut Cx| -> Res {
        use corries::rhs::numflux::{Hll, Kt};
        let names: Vec<DataName> = c.names.iter().map(|k| data_name(*k)).collect();
        let folder = cx.dir.join(&c.folder).to_str().unwrap().to_string();
        let chk_std = |o: &OutputConfig, names: &[DataName]| -> Res {
            need!(
                o.stream_mode == StreamMode::Stdout
                    && o.formatting_mode == FormattingMode::TSV
                    && o.string_conversion_mode == ToStringConversionMode::Scalar
                    && o.folder_name.is_empty()
                    && !o.should_clear_out_folder
                    && o.file_name.is_empty()
                    && o.precision == 3
                    && !o.should_print_ghostcells
                    && !o.should_print_metadata
                    && o.data_names == names,
                "default stdout configuration is {o:?}"
            );
            Ok(())
        };
        let chk_file = |o: &OutputConfig, names: &[DataName]| -> Res {
            need!(
                o.stream_mode == StreamMode::File
                    && o.formatting_mode == FormattingMode::CSV
                    && o.string_conversion_mode == ToStringConversionMode::Vector
                    && o.folder_name == folder
                    && o.should_clear_out_folder
                    && o.file_name == c.file
                    && o.precision == 7
                    && o.should_print_ghostcells
                    && o.should_print_metadata
                    && o.data_names == names,
                "default file configuration is {o:?}"
            );
            Ok(())
        };
        let std_names = [DataName::Iter, DataName::T, DataName::Dt, DataName::DtKind];
        let file_names = |n: usize| {
            let mut v = vec![DataName::T, DataName::XiCent];
            v.extend((0..n).map(DataName::Prim));
            v
        };
        chk_std(&OutputConfig::default_stdout(), &std_names)?;
        chk_std(&OutputConfig::default_stdout_with_names(names.clone()), &names)?;
        chk_file(&OutputConfig::default_file(&folder, &c.file, c.n_eq), &file_names(c.n_eq))?;
        chk_file(&OutputConfig::default_file_with_names(&folder, &c.file, names.clone()), &names)?;
        let m = MeshConfig::default_riemann_test();
        need!(
            m.mode == MeshMode::Cartesian && m.xi_in == 1.0 && m.xi_out == 2.0,
            "default mesh configuration is {m:?}"
        );
        let p = PhysicsConfig::default();
        need!(
            p.adiabatic_index == 5.0 / 3.0 && p.units_mode == UnitsMode::SI,
            "default physics configuration is {p:?}"
        );
        let chk_rkf = |r: &RkfConfig| -> Res {
            need!(
                r.rkf_mode == RKFMode::SSPRK5
                    && !r.asc
                    && r.asc_relative_tolerance == 0.001
                    && r.asc_absolute_tolerance == 0.001
                    && r.asc_timestep_friction == 0.08,
                "default Runge-Kutta configuration is {r:?}"
            );
            Ok(())
        };
        chk_rkf(&RkfConfig::default())?;
        let TimeIntegrationConfig::Rkf(r) = TimeIntegrationConfig::default_rkf();
        chk_rkf(&r)?;
        let chk_num = |n: &NumericsConfig| -> Res {
            let flux = if c.hll {
                NumFluxConfig::Hll
            } else {
                NumFluxConfig::Kt { limiter_mode: LimiterMode::VanLeer }
            };
            need!(
                n.numflux_config == flux
                    && n.iter_max == usize::MAX - 2
                    && n.t0 == 0.0
                    && n.t_end == c.t_end
                    && n.dt_min == 1e-12
                    && n.dt_max == f64::MAX
                    && n.dt_cfl_param == 0.4,
                "default numerics configuration is {n:?}"
            );
            let TimeIntegrationConfig::Rkf(r) = n.time_integration_config;
            chk_rkf(&r)
        };
        // the configuration as a whole, for real types
        let (conf, n) = match (c.ad, c.hll) {
            (true, true) => (
                CorriesConfig::default_riemann_test::<Hll<3, 12>, 3, 12>(c.t_end, &folder, &c.file),
                NumericsConfig::default_riemann_test::<Hll<3, 12>, 3, 12>(c.t_end),
            ),
            (true, false) => (
                CorriesConfig::default_riemann_test::<Kt<3, 12>, 3, 12>(c.t_end, &folder, &c.file),
                NumericsConfig::default_riemann_test::<Kt<3, 12>, 3, 12>(c.t_end),
            ),
            (false, true) => (
                CorriesConfig::default_riemann_test::<Hll<2, 12>, 2, 12>(c.t_end, &folder, &c.file),
                NumericsConfig::default_riemann_test::<Hll<2, 12>, 2, 12>(c.t_end),
            ),
            (false, false) => (
                CorriesConfig::default_riemann_test::<Kt<2, 12>, 2, 12>(c.t_end, &folder, &c.file),
                NumericsConfig::default_riemann_test::<Kt<2, 12>, 2, 12>(c.t_end),
            ),
        };
        chk_num(&n)?;
        chk_num(&conf.numerics_config)?;
        need!(
            !conf.print_banner
                && conf.boundary_condition_west == BoundaryMode::NoGradients
                && conf.boundary_condition_east == BoundaryMode::NoGradients
                && conf.output_counter_max == 1
                && conf.writer_config.len() == 2
                && conf.mesh_config.xi_in == 1.0
                && conf.mesh_config.xi_out == 2.0
                && conf.physics_config.adiabatic_index == 5.0 / 3.0,
            "default configuration is {conf:?}"
        );
        chk_std(&conf.writer_config[0], &std_names)?;
        chk_file(&conf.writer_config[1], &file_names(if c.ad { 3 } else { 2 }))?;
        // it is valid, and runs
        let mut sim = match sim::build_plain(&conf, c.ad, c.hll, Default::default()) {
            Ok(s) => s,
            Err(e) => return fail(format!("the default configuration is rejected: {}", sim::errstr(&e))),
        };
        // cells with hardly any pressure are more than KT's reconstruction can take
        if c.t_end < 0.2 && (c.hll || !c.ad || !c.noh) {
            sim.setup(c.noh).map_err(|e| Stop::Fail(format!("set-up failed: {}", sim::errstr(&e))))?;
            sim.op(Op::FromPrim0);
            sim.op(Op::InitWestEast);
            if let Err(e) = sim.run() {
                return fail(format!("the default configuration does not run: {}", sim::errstr(&e)));
            }
            need!((sim.ts().t - c.t_end).abs() <= 1e-11, "the run ended at {:e}", sim.ts().t);
            for k in 0..2 {
                let p = std::path::Path::new(&folder).join(format!("{}_{k}.csv", c.file));
                need!(p.is_file(), "{} is missing", p.display());
            }
            cx.label("run");
        }
        let _ = std::fs::remove_dir_all(cx.dir.join(&c.folder));
        cx.nontrivial();
        Ok(())
    };
    Property {
        id: "C29",
        rule: "set-up applied to a dirty state and compared cell by cell, or default configuration compared field by \
               field (and run if short); distinct arguments",
        parts: vec![
            part("set-ups", 25_000, 500_000, strat, oracle),
            part("defaults", 12_500, 250_000, dstrat, doracle),
        ],
    }
}

// =====================================================================================================================
// C32 guard macros
// =====================================================================================================================

#[derive(Clone, Debug, Serialize, Deserialize)]
struct GuardCase {
    /// encoded values, see `val`
    a: Vec<(u8, f64)>,
    b: Vec<(u8, f64)>,
    shape: usize,
    scalars: Vec<(u8, f64)>,
}
fn val(x: &(u8, f64)) -> f64 {
    match x.0 {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => f64::NEG_INFINITY,
        3 => 0.0,
        4 => -0.0,
        5 => -x.1,
        6 => f64::MIN_POSITIVE,
        7 => 5e-324,
        8 => -5e-324,
        9 => f64::MAX,
        10 => f64::MIN,
        _ => x.1,
    }
}

pub fn c32() -> Property {
    use color_eyre::{eyre::ensure, Result};
    use corries::{check_finite_arrayd, check_finite_double, check_positive_arrayd, check_positive_double};
    use ndarray::{s, Array1, Array2, Array3, ArrayView1, ArrayView2, Axis};
    struct H {
        alpha: f64,
        beta: f64,
        gamma: f64,
    }
    struct A<X, Y> {
        first: X,
        second: Y,
    }
    fn fd(h: &H) -> Result<()> {
        check_finite_double!(h.alpha, h.beta, h.gamma);
        Ok(())
    }
    fn fd1(h: &H) -> Result<()> {
        check_finite_double!(h.beta);
        Ok(())
    }
    fn fde(x: f64, y: f64, z: f64) -> Result<()> {
        check_finite_double!(x, y, z);
        Ok(())
    }
    fn pd(h: &H) -> Result<()> {
        check_positive_double!(h.alpha, h.beta, h.gamma);
        Ok(())
    }
    fn pde(x: f64, y: f64, z: f64) -> Result<()> {
        check_positive_double!(x, y, z);
        Ok(())
    }
    fn fa(h: &A<Array1<f64>, Array2<f64>>) -> Result<()> {
        check_finite_arrayd!(h.first, h.second);
        Ok(())
    }
    fn fae(x: &Array3<f64>, y: &Array1<f64>) -> Result<()> {
        check_finite_arrayd!(x, y);
        Ok(())
    }
    fn pa(h: &A<Array1<f64>, Array2<f64>>) -> Result<()> {
        check_positive_arrayd!(h.first, h.second);
        Ok(())
    }
    fn pae(x: &Array3<f64>, y: &Array1<f64>) -> Result<()> {
        check_positive_arrayd!(x, y);
        Ok(())
    }
    fn fav(x: &ArrayView1<f64>, y: &ArrayView2<f64>) -> Result<()> {
        check_finite_arrayd!(x, y);
        Ok(())
    }
    fn pav(x: &ArrayView1<f64>, y: &ArrayView2<f64>) -> Result<()> {
        check_positive_arrayd!(x, y);
        Ok(())
    }
    fn favf(h: &A<ArrayView1<f64>, ArrayView2<f64>>) -> Result<()> {
        check_finite_arrayd!(h.first, h.second);
        Ok(())
    }
    fn pavf(h: &A<ArrayView1<f64>, ArrayView2<f64>>) -> Result<()> {
        check_positive_arrayd!(h.first, h.second);
        Ok(())
    }
    let strat = || {
        let v = || {
            prop_oneof![12 => (Just(99u8), logu(1e-300, 1e300)), 1 => (0u8..11, logu(1e-5, 1e5))]
        };
        (
            proptest::collection::vec(v(), 1..40),
            proptest::collection::vec(v(), 1..40),
            1usize..6,
            proptest::collection::vec(prop_oneof![3 => (Just(99u8), logu(1e-300, 1e300)), 1 => (0u8..11, logu(1e-5, 1e5))], 3),
        )
            .prop_map(|(a, b, shape, scalars)| GuardCase { a, b, shape, scalars })
    };
    let oracle = |c: &GuardCase, cx: &mut Cx| -> Res {
        let a: Vec<f64> = c.a.iter().map(val).collect();
        let b: Vec<f64> = c.b.iter().map(val).collect();
        let s: Vec<f64> = c.scalars.iter().map(val).collect();
        let rows = c.shape.min(b.len());
        let b = b[..rows * (b.len() / rows)].to_vec();
        let b2 = Array2::from_shape_vec((rows, b.len() / rows), b.clone()).unwrap();
        let b3 = Array3::from_shape_vec((rows, b.len() / rows, 1), b.clone()).unwrap();
        let a1 = Array1::from(a.clone());
        let fin = |x: &f64| x.is_finite();
        let pos = |x: &f64| *x > 0.0;
        // (macro, result, names of offending arguments in order)
        let h = H {
            alpha: s[0],
            beta: s[1],
            gamma: s[2],
        };
        // views with gaps that hold other values, in another order
        let mut wide = Array2::from_elem((a.len(), 1 + c.shape), if c.shape % 2 == 0 { f64::NAN } else { -1.0 });
        wide.column_mut(c.shape / 2).assign(&a1);
        let mut v1 = wide.column(c.shape / 2);
        let mut wide2 = Array2::from_elem((2 * b2.nrows(), 3 * b2.ncols()), if c.shape % 2 == 0 { -1.0 } else { f64::INFINITY });
        wide2.slice_mut(s![1..;2, ..;3]).assign(&b2);
        let mut v2 = wide2.slice(s![1..;2, ..;3]);
        match c.shape {
            1 => v1.invert_axis(Axis(0)),
            2 => v2 = v2.reversed_axes(),
            3 => v2.invert_axis(Axis(1)),
            4 => v2 = b2.t(),
            _ => {},
        }
        let sv = A { first: v1, second: v2 };
        let st = A {
            first: a1.clone(),
            second: b2.clone(),
        };
        let bad = |names: &[&'static str], ok: &[bool]| -> Vec<&'static str> {
            names.iter().zip(ok).filter(|x| !x.1).map(|x| *x.0).collect()
        };
        let hn = ["alpha", "beta", "gamma"];
        let sf: Vec<bool> = s.iter().map(fin).collect();
        let sp: Vec<bool> = s.iter().map(pos).collect();
        let (af, bf) = (a.iter().all(fin), b.iter().all(fin));
        let (ap, bp) = (a.iter().all(pos), b.iter().all(pos));
        let an = ["first", "second"];
        let en = ["x", "y", "z"];
        let table: Vec<(&str, Result<()>, Vec<&str>)> = vec![
            ("check_finite_double (fields)", fd(&h), bad(&hn, &sf)),
            ("check_finite_double (one field)", fd1(&h), bad(&["beta"], &sf[1..2])),
            ("check_finite_double (expressions)", fde(s[0], s[1], s[2]), bad(&en, &sf)),
            ("check_positive_double (fields)", pd(&h), bad(&hn, &sp)),
            ("check_positive_double (expressions)", pde(s[0], s[1], s[2]), bad(&en, &sp)),
            ("check_finite_arrayd (fields)", fa(&st), bad(&an, &[af, bf])),
            ("check_finite_arrayd (expressions)", fae(&b3, &a1), bad(&en, &[bf, af])),
            ("check_positive_arrayd (fields)", pa(&st), bad(&an, &[ap, bp])),
            ("check_positive_arrayd (expressions)", pae(&b3, &a1), bad(&en, &[bp, ap])),
            ("check_finite_arrayd (views)", fav(&v1, &v2), bad(&en, &[af, bf])),
            ("check_positive_arrayd (views)", pav(&v1, &v2), bad(&en, &[ap, bp])),
            ("check_finite_arrayd (fields with views)", favf(&sv), bad(&an, &[af, bf])),
            ("check_positive_arrayd (fields with views)", pavf(&sv), bad(&an, &[ap, bp])),
        ];
        for (name, r, offending) in table {
            match (&r, offending.first()) {
                (Ok(()), None) => cx.label("accepted"),
                (Err(e), Some(_)) => {
                    let m = sim::errstr(e);
                    need!(
                        offending.iter().any(|o| m.contains(o)),
                        "{name}: the error does not name the offending value {offending:?}: {m}"
                    );
                    cx.label("rejected");
                },
                (Ok(()), Some(o)) => return fail(format!("{name}: accepted although {o} is not allowed")),
                (Err(e), None) => return fail(format!("{name}: rejected allowed values: {}", sim::errstr(e))),
            }
        }
        cx.nontrivial();
        Ok(())
    };
    Property {
        id: "C32",
        rule: "all thirteen uses of the guards judged for one set of values",
        parts: vec![part("guards", 150_000, 3_000_000, strat, oracle)],
    }
}
