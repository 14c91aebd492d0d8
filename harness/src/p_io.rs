//! Output: files, standard output, metadata, folders, failures, validation of configurations, reproducibility

use crate::engine::*;
use crate::gen::*;
use crate::need;
use crate::p_flux::undecided;
use crate::p_time::excused;
use crate::refsol::{self, Problem};
use crate::sim::{self, InitData, Sim, StepRec, D, V2};
use corries::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fs;
use std::path::{Path, PathBuf};

// ---------------------------------------------------------------------------------------------------------------------
// streams
// ---------------------------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Col {
    XiCent,
    XiWest,
    XiEast,
    Prim(usize),
    Cons(usize),
    CSound,
    T,
    Iter,
    Dt,
    DtKind,
}
impl Col {
    fn conf(&self) -> DataName {
        match *self {
            Col::XiCent => DataName::XiCent,
            Col::XiWest => DataName::XiWest,
            Col::XiEast => DataName::XiEast,
            Col::Prim(j) => DataName::Prim(j),
            Col::Cons(j) => DataName::Cons(j),
            Col::CSound => DataName::CSound,
            Col::T => DataName::T,
            Col::Iter => DataName::Iter,
            Col::Dt => DataName::Dt,
            Col::DtKind => DataName::DtKind,
        }
    }
    fn name(&self) -> String {
        match *self {
            Col::XiCent => "xi_cent".into(),
            Col::XiWest => "xi_west".into(),
            Col::XiEast => "xi_east".into(),
            Col::Prim(j) => format!("prim_{j}"),
            Col::Cons(j) => format!("cons_{j}"),
            Col::CSound => "c_sound".into(),
            Col::T => "t".into(),
            Col::Iter => "iter".into(),
            Col::Dt => "dt".into(),
            Col::DtKind => "dt_kind".into(),
        }
    }
    fn json(&self) -> Value {
        match *self {
            Col::XiCent => json!("XiCent"),
            Col::XiWest => json!("XiWest"),
            Col::XiEast => json!("XiEast"),
            Col::Prim(j) => json!({ "Prim": j }),
            Col::Cons(j) => json!({ "Cons": j }),
            Col::CSound => json!("CSound"),
            Col::T => json!("T"),
            Col::Iter => json!("Iter"),
            Col::Dt => json!("Dt"),
            Col::DtKind => json!("DtKind"),
        }
    }
    fn is_vector(&self) -> bool {
        !matches!(self, Col::T | Col::Iter | Col::Dt | Col::DtKind)
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Stream {
    pub file: bool,
    pub csv: bool,
    pub scalar: bool,
    /// relative to the case's root folder
    pub folder: String,
    pub slash: bool,
    pub clear: bool,
    pub name: String,
    pub precision: usize,
    pub ghost: bool,
    pub meta: bool,
    pub cols: Vec<Col>,
}
impl Stream {
    /// names of streams to stdout mean nothing
    fn named(&self) -> bool {
        self.file || self.slash
    }
    fn folder_name(&self, root: &str) -> String {
        if self.named() {
            format!("{root}/{}{}", self.folder, if self.slash { "/" } else { "" })
        } else {
            String::new()
        }
    }
    pub fn conf(&self, root: &str) -> OutputConfig {
        OutputConfig {
            stream_mode: if self.file { StreamMode::File } else { StreamMode::Stdout },
            formatting_mode: if self.csv { FormattingMode::CSV } else { FormattingMode::TSV },
            string_conversion_mode: if self.scalar {
                ToStringConversionMode::Scalar
            } else {
                ToStringConversionMode::Vector
            },
            folder_name: self.folder_name(root),
            should_clear_out_folder: self.clear,
            file_name: if self.named() { self.name.clone() } else { String::new() },
            precision: self.precision,
            should_print_ghostcells: self.ghost,
            should_print_metadata: self.meta,
            data_names: self.cols.iter().map(|c| c.conf()).collect(),
        }
    }
    fn ext(&self) -> &'static str {
        if self.csv {
            "csv"
        } else {
            "tsv"
        }
    }
    /// file of output k, relative to the root folder
    fn path(&self, k: usize, n_out: usize) -> String {
        if self.scalar {
            format!("{}/{}.{}", self.folder, self.name, self.ext())
        } else {
            let w = n_out.to_string().len();
            format!("{}/{}_{:0w$}.{}", self.folder, self.name, k, self.ext(), w = w)
        }
    }
    fn meta_path(&self) -> String {
        if self.scalar {
            format!("{}/{}_metadata.json", self.folder, self.name)
        } else {
            format!("{}/{}__metadata.json", self.folder, self.name)
        }
    }
    /// indexes of the printed cells
    fn cells(&self, s: usize) -> std::ops::Range<usize> {
        if self.scalar {
            0..1
        } else if self.ghost {
            0..s
        } else {
            2..s - 2
        }
    }
    fn lines(&self, s: usize, first: bool) -> usize {
        self.cells(s).len() + usize::from(!self.scalar || first)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct IoCase {
    pub x: Scn,
    pub streams: Vec<Stream>,
    pub banner: bool,
    /// folder names relative to the working directory
    pub relative: bool,
}
impl IoCase {
    pub fn conf(&self, root: &str) -> CorriesConfig {
        let mut c = self.x.conf();
        c.print_banner = self.banner;
        c.writer_config = self.streams.iter().map(|s| s.conf(root)).collect();
        c
    }
    fn root_name(&self, root: &Path) -> String {
        if self.relative {
            // the working directory is the parent of the shards' directories
            let mut c = root.components().rev();
            let (a, b) = (c.next().unwrap(), c.next().unwrap());
            format!("{}/{}", b.as_os_str().to_str().unwrap(), a.as_os_str().to_str().unwrap())
        } else {
            root.to_str().unwrap().to_string()
        }
    }
    pub fn build(&self, root: &Path) -> Result<Box<dyn Sim>, String> {
        self.build_from(root, self.x.init())
    }
    /// One table of numbers, in a file of its own
    pub fn rows(x: &Scn, cols: Vec<Col>, precision: usize) -> Self {
        let t = Stream {
            file: true,
            csv: true,
            scalar: true,
            folder: "one".into(),
            slash: false,
            clear: false,
            name: "rows".into(),
            precision,
            ghost: false,
            meta: false,
            cols,
        };
        Self { x: x.clone(), streams: vec![t], banner: false, relative: false }
    }
    /// The numbers in the table
    pub fn read_rows(&self, root: &Path) -> Res<Vec<Vec<f64>>> {
        let path = root.join(self.streams[0].path(0, self.x.n_out));
        let text = match std::fs::read_to_string(&path) {
            Ok(t) => t,
            Err(e) => return fail(format!("{}: {e}", path.display())),
        };
        let mut rows = vec![];
        for line in text.lines().skip(1) {
            match line.split(',').map(|f| f.trim().parse()).collect::<Result<Vec<f64>, _>>() {
                Ok(r) if r.len() == self.streams[0].cols.len() => rows.push(r),
                _ => return fail(format!("the row {line:?} is no list of numbers")),
            }
        }
        Ok(rows)
    }
    fn build_from(&self, root: &Path, data: InitData) -> Result<Box<dyn Sim>, String> {
        let x = &self.x;
        sim::build(&self.conf(&self.root_name(root)), x.ad, x.s, data).map_err(|e| sim::errstr(&e))
    }
}

fn col(vector: bool) -> BoxedStrategy<Col> {
    let scalar = prop_oneof![Just(Col::T), Just(Col::Iter), Just(Col::Dt), Just(Col::DtKind)];
    if vector {
        prop_oneof![
            2 => scalar,
            1 => Just(Col::XiCent),
            1 => Just(Col::XiWest),
            1 => Just(Col::XiEast),
            1 => Just(Col::CSound),
            4 => (0usize..6).prop_map(Col::Prim),
            4 => (0usize..6).prop_map(Col::Cons),
        ]
        .boxed()
    } else {
        scalar.boxed()
    }
}

const NAMES: [&str; 6] = ["out", "a.b", "x y", "d\u{e4}t\u{e4}", "run_7", "q-"];
const FOLDERS: [&str; 4] = ["one", "two/deep/er", "th ree", "four.d"];

pub fn stream(stdout: bool) -> impl Strategy<Value = Stream> {
    (
        (prop_oneof![Just(false), Just(true)], any::<bool>(), any::<bool>(), any::<bool>(), any::<bool>(), any::<bool>()),
        proptest::sample::select(&FOLDERS[..]),
        proptest::sample::select(&NAMES[..]),
        prop_oneof![9 => Just(7usize), 9 => 0usize..18, 1 => 18usize..80],
        prop_oneof![
            14 => proptest::collection::vec((col(false), col(true)), 1..8),
            1 => proptest::collection::vec((col(false), col(true)), 8..40),
        ],
        prop_oneof![3 => Just(true), 1 => Just(false)],
    )
        .prop_map(move |((csv, scalar, slash, clear, ghost, meta), folder, name, precision, cols, file)| Stream {
            file: !stdout || file,
            csv,
            scalar,
            folder: folder.to_string(),
            slash,
            clear,
            name: name.to_string(),
            precision,
            ghost,
            meta,
            cols: cols.into_iter().map(|c| if scalar { c.0 } else { c.1 }).collect(),
        })
}

fn io_scn(steps: f64) -> impl Strategy<Value = Scn> {
    let o = Opt {
        amp: 1.0,
        mach: 1.0,
        steps,
        asc: true,
        stable: true,
        sizes: SMALL,
        ..Opt::default()
    };
    (
        scn(o),
        prop_oneof![28 => 0usize..4, 56 => 4usize..13, 14 => 95usize..105, 1 => 250usize..300, 1 => 990usize..1010],
        prop_oneof![3 => Just(0.0), 1 => 0.1f64..3.0],
    )
        .prop_map(|(mut x, n, lim)| {
            x.n_out = n;
            if lim > 0.0 {
                x.dt_max = lim * x.cfl * x.dx() / x.speed();
            }
            if x.asc.is_some() {
                x.iter_max = 300 + n;
            }
            x
        })
}

/// names of all streams differ
pub fn case_with(streams: std::ops::Range<usize>, stdout: bool, steps: f64) -> impl Strategy<Value = IoCase> {
    (io_scn(steps), proptest::collection::vec(stream(stdout), streams), any::<bool>(), any::<bool>()).prop_map(
        |(x, mut streams, banner, relative)| {
            let e = x.e();
            for (k, s) in streams.iter_mut().enumerate() {
                s.name = format!("{}{}", s.name, k);
                for c in s.cols.iter_mut() {
                    match c {
                        Col::Prim(j) | Col::Cons(j) => *j %= e,
                        _ => {},
                    }
                }
            }
            IoCase { x, streams, banner, relative }
        },
    )
}

// ---------------------------------------------------------------------------------------------------------------------
// model of the outputs
// ---------------------------------------------------------------------------------------------------------------------

/// What an output shows
#[derive(Clone, Debug)]
pub struct Shown {
    prim: V2,
    cons: V2,
    c: Vec<f64>,
    t: f64,
    dt: f64,
    iter: usize,
    kind: &'static str,
}
impl Shown {
    fn now(sim: &mut dyn Sim, kind: &'static str) -> Self {
        let v = sim.vars(D::Cent);
        let ts = sim.ts();
        Self {
            prim: v.prim,
            cons: v.cons,
            c: v.c,
            t: ts.t,
            dt: ts.dt,
            iter: ts.iter,
            kind,
        }
    }
}

/// The outputs of a run: at the start, then at every output time that a step arrives at
fn outputs_of(x: &Scn, init: Shown, rec: &[StepRec]) -> Vec<Shown> {
    let mut out = vec![];
    let time = |k: usize| x.t0 + k as f64 * (x.t_end - x.t0) / x.n_out as f64;
    let mut k = 1;
    out.push(init);
    for s in rec.iter().filter(|s| s.ok) {
        if x.n_out > 0 && k <= x.n_out && s.t_after >= time(k) - x.dt_min - 1e-15 * (1 + k) as f64 * x.t_end {
            out.push(Shown {
                prim: s.prim_after.clone(),
                cons: s.cons_after.clone(),
                c: s.c_after.clone(),
                t: s.t_after,
                dt: s.dt,
                iter: s.iter,
                kind: "cfl",
            });
            k += 1;
        }
    }
    out
}

/// Compares a printed number with its value
fn number(txt: &str, want: f64, precision: usize, what: &dyn Fn() -> String) -> Res {
    if !want.is_finite() {
        let ok = match txt.parse::<f64>() {
            Ok(v) => v.is_nan() == want.is_nan() && (v.is_nan() || v == want),
            Err(_) => false,
        };
        need!(ok, "{}: {txt:?} is printed for {want}", what());
        return Ok(());
    }
    // [-]d.ddd...e[-]d
    let body = txt.strip_prefix('-').unwrap_or(txt);
    let Some((m, e)) = body.split_once('e') else {
        return fail(format!("{}: {txt:?} is not in scientific notation", what()));
    };
    let exp = e.parse::<i32>();
    let digits: Vec<&str> = m.split('.').collect();
    let form = exp.is_ok()
        && digits[0].len() == 1
        && digits.iter().all(|d| d.chars().all(|c| c.is_ascii_digit()))
        && if precision == 0 { digits.len() == 1 } else { digits.len() == 2 && digits[1].len() == precision };
    need!(form, "{}: {txt:?} is not a number in scientific notation with {precision} decimals", what());
    if txt == format!("{want:.precision$e}") {
        return Ok(());
    }
    let v: f64 = txt.parse().unwrap();
    let ulp = 10f64.powi(exp.unwrap() - precision as i32);
    need!(
        (v - want).abs() <= 0.5001 * ulp + 4e-16 * want.abs(),
        "{}: {txt} is printed for {want:e} (precision {precision})",
        what()
    );
    Ok(())
}

fn fields(line: &str, csv: bool) -> Vec<String> {
    if csv {
        line.split(',').map(|s| s.trim().to_string()).collect()
    } else {
        line.split_whitespace().map(|s| s.to_string()).collect()
    }
}

fn check_header(s: &Stream, line: &str) -> Res {
    let names: Vec<String> = if s.csv {
        fields(line, true)
    } else {
        let Some(rest) = line.strip_prefix('#') else {
            return fail(format!("the header {line:?} is not commented"));
        };
        fields(rest, false)
    };
    let want: Vec<String> = s.cols.iter().map(|c| c.name()).collect();
    need!(names == want, "the header {line:?} does not name the columns {want:?}");
    Ok(())
}

/// Compares the lines of a block (without header) with the model
fn check_rows(x: &Scn, s: &Stream, lines: &[&str], o: &Shown, what: &str) -> Res {
    let m = refsol::mesh(x.xi_in, x.xi_out, x.s);
    let cells: Vec<usize> = s.cells(x.s).collect();
    need!(lines.len() == cells.len(), "{what} has {} rows instead of {}", lines.len(), cells.len());
    let xmax = x.xi_in.abs().max(x.xi_out.abs());
    for (line, &i) in lines.iter().zip(&cells) {
        need!(!line.starts_with('#'), "{what}: unexpected comment {line:?}");
        let f = fields(line, s.csv);
        need!(f.len() == s.cols.len(), "{what}: {line:?} has {} columns instead of {}", f.len(), s.cols.len());
        for (txt, c) in f.iter().zip(&s.cols) {
            let at = || format!("{what}, {} in cell {i}", c.name());
            let want = match *c {
                Col::Iter => {
                    need!(*txt == o.iter.to_string(), "{}: {txt:?} is printed for {}", at(), o.iter);
                    continue;
                },
                Col::DtKind => {
                    need!(txt == o.kind, "{}: {txt:?} is printed for {:?}", at(), o.kind);
                    continue;
                },
                Col::T => o.t,
                Col::Dt => o.dt,
                Col::Prim(j) => o.prim[j][i],
                Col::Cons(j) => o.cons[j][i],
                Col::CSound => o.c[i],
                Col::XiCent | Col::XiWest | Col::XiEast => {
                    let want = match c {
                        Col::XiCent => m.xc[i],
                        Col::XiWest => m.xw[i],
                        _ => m.xe[i],
                    };
                    // the mesh's own rounding
                    let v = txt.parse::<f64>().unwrap_or(f64::NAN);
                    let tie = (v - want).abs() <= 0.5001 * 10f64.powi(
                        txt.split_once('e').and_then(|e| e.1.parse::<i32>().ok()).unwrap_or(0) - s.precision as i32,
                    ) + 1e-13 * xmax;
                    need!(tie, "{}: {txt} is printed for {want:e}", at());
                    number(txt, v, s.precision, &at)?;
                    continue;
                },
            };
            number(txt, want, s.precision, &at)?;
        }
    }
    Ok(())
}

fn read(p: &Path) -> Res<String> {
    match fs::read_to_string(p) {
        Ok(s) => Ok(s),
        Err(e) => fail(format!("{}: {e}", p.file_name().unwrap().to_string_lossy())),
    }
}

/// All entries below a folder: files with their content, folders, and links with their target
pub fn tree(root: &Path) -> BTreeMap<String, Option<Vec<u8>>> {
    fn walk(dir: &Path, prefix: &str, out: &mut BTreeMap<String, Option<Vec<u8>>>) {
        let Ok(rd) = fs::read_dir(dir) else { return };
        for e in rd.flatten() {
            let name = format!("{prefix}{}", e.file_name().to_string_lossy());
            let t = e.file_type().unwrap();
            if t.is_dir() {
                out.insert(format!("{name}/"), None);
                walk(&e.path(), &format!("{name}/"), out);
            } else if t.is_symlink() {
                let to = fs::read_link(e.path()).unwrap();
                out.insert(format!("{name}@"), Some(to.to_string_lossy().as_bytes().to_vec()));
            } else {
                out.insert(name, fs::read(e.path()).ok());
            }
        }
    }
    let mut out = BTreeMap::new();
    walk(root, "", &mut out);
    out
}

/// A new and empty folder for a case
pub fn fresh(cx: &Cx, name: &str) -> PathBuf {
    let p = cx.dir.join(name);
    wipe(&p);
    fs::create_dir_all(&p).unwrap();
    p
}
fn wipe(p: &Path) {
    if p.symlink_metadata().is_ok() {
        // the harness locks folders
        let _ = fs::remove_dir_all(p);
        if p.exists() {
            unlock(p);
            fs::remove_dir_all(p).unwrap();
        }
    }
}
fn unlock(p: &Path) {
    use std::os::unix::fs::PermissionsExt;
    if let Ok(m) = p.symlink_metadata() {
        if m.is_dir() {
            let _ = fs::set_permissions(p, fs::Permissions::from_mode(0o755));
            for e in fs::read_dir(p).into_iter().flatten().flatten() {
                unlock(&e.path());
            }
        }
    }
}

pub struct Run {
    pub result: Result<(), String>,
    pub outputs: Vec<Shown>,
    pub rec: Vec<StepRec>,
    pub sim: Box<dyn Sim>,
}

/// Initialises and runs; the outputs are those that the model expects
fn run_io(c: &IoCase, root: &Path) -> Res<Run> {
    let mut sim = match c.build(root) {
        Ok(s) => s,
        Err(e) => return fail(format!("valid configuration rejected: {e}")),
    };
    run_built(c, &mut sim).map(|(result, outputs, rec)| Run { result, outputs, rec, sim })
}
#[allow(clippy::type_complexity)]
fn run_built(c: &IoCase, sim: &mut Box<dyn Sim>) -> Res<(Result<(), String>, Vec<Shown>, Vec<StepRec>)> {
    let init = Shown::now(&mut **sim, "init");
    sim::record(2);
    let result = sim.run().map_err(|e| sim::errstr(&e));
    let rec = sim::take_record();
    sim::record(0);
    // the step that made the run fail is dumped instead of being written as scheduled
    let counted = if result.is_err() { rec.len().saturating_sub(1) } else { rec.len() };
    let mut outputs = outputs_of(&c.x, init, &rec[..counted]);
    if result.is_err() {
        outputs.push(Shown::now(&mut **sim, "err"));
    }
    Ok((result, outputs, rec))
}

/// Compares all files below the root folder with the model
fn check_files(c: &IoCase, root: &Path, outputs: &[Shown]) -> Res {
    let mut want: BTreeMap<String, (usize, Option<usize>)> = BTreeMap::new();
    let mut dirs: Vec<String> = vec![];
    for (n, s) in c.streams.iter().enumerate().filter(|s| s.1.file) {
        let mut d = String::new();
        for part in s.folder.split('/') {
            d += &format!("{part}/");
            dirs.push(d.clone());
        }
        if s.meta {
            want.insert(s.meta_path(), (n, None));
        }
        for k in 0..outputs.len() {
            want.insert(s.path(k, c.x.n_out), (n, Some(k)));
        }
    }
    let have = tree(root);
    for name in have.keys() {
        need!(
            want.contains_key(name) || dirs.contains(name),
            "unexpected file {name:?} ({} outputs of {})",
            outputs.len(),
            c.x.n_out
        );
    }
    for (name, (n, k)) in &want {
        need!(have.contains_key(name), "the file {name:?} does not exist ({} outputs)", outputs.len());
        let Some(k) = k else { continue };
        let s = &c.streams[*n];
        let txt = read(&root.join(name))?;
        need!(txt.ends_with('\n'), "{name:?} does not end with a complete line");
        let lines: Vec<&str> = txt.lines().collect();
        check_header(s, lines[0])?;
        if s.scalar {
            need!(
                lines.len() == outputs.len() + 1,
                "{name:?} has {} rows instead of {}",
                lines.len() - 1,
                outputs.len()
            );
            for (r, o) in outputs.iter().enumerate() {
                check_rows(&c.x, s, &lines[r + 1..r + 2], o, &format!("row {r} of {name:?}"))?;
            }
        } else {
            check_rows(&c.x, s, &lines[1..], &outputs[*k], &format!("{name:?}"))?;
        }
    }
    Ok(())
}

/// Whether the failure of a run is none that the schemes may have
fn judge_failure(c: &IoCase, r: &Result<(), String>, rec: &[StepRec]) -> Res<bool> {
    if let Err(e) = r {
        if c.x.asc.is_none() && rec.len() < c.x.iter_max && !excused(&c.x, rec) {
            return fail(format!("the run fails without a reason: {e}"));
        }
        return Ok(true);
    }
    Ok(false)
}

// =====================================================================================================================
// C17 outputs of a run
// =====================================================================================================================

pub fn c17() -> Property {
    let oracle = |c: &IoCase, cx: &mut Cx| -> Res {
        let root = fresh(cx, "c");
        let r = run_io(c, &root)?;
        if judge_failure(c, &r.result, &r.rec)? {
            return discard("the run fails");
        }
        let x = &c.x;
        let n = x.n_out;
        // the number and times of the outputs
        need!(r.outputs.len() == n + 1, "{} outputs instead of {}", r.outputs.len(), n + 1);
        for (k, o) in r.outputs.iter().enumerate().skip(1) {
            let at = x.t0 + k as f64 * (x.t_end - x.t0) / n as f64;
            need!(
                (o.t - at).abs() <= x.dt_min + 1e-15 * (2 + k) as f64 * x.t_end,
                "output {k} at {:e} instead of {at:e}",
                o.t
            );
            need!(o.iter > r.outputs[k - 1].iter, "iteration numbers of outputs {} and {k} do not increase", k - 1);
        }
        check_files(c, &root, &r.outputs)?;
        cx.label(match n {
            0 => "no outputs",
            1..=9 => "1 to 9",
            _ => "10 and more",
        });
        for s in &c.streams {
            cx.label(if s.scalar { "scalar stream" } else { "vector stream" });
        }
        if n > 1 {
            cx.nontrivial();
        }
        Ok(())
    };
    Property {
        id: "C17",
        rule: "successful runs with at least two outputs into one or more file streams",
        parts: vec![part("runs", 4_000, 60_000, || case_with(1..4, false, 10.0), oracle)],
    }
}

// =====================================================================================================================
// C18 contents of files
// =====================================================================================================================

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RawCase {
    c: IoCase,
    /// values of primitive, conservative variables and sound speeds: bits, so that NaN and infinities survive
    bits: Vec<u64>,
    t: u64,
    dt: u64,
    iter: usize,
}
fn any_float() -> impl Strategy<Value = u64> {
    prop_oneof![
        4 => (-1.0f64..1.0).prop_map(|x| x.to_bits()),
        4 => (logu(1e-300, 1e300), any::<bool>()).prop_map(|(x, n)| if n { (-x).to_bits() } else { x.to_bits() }),
        2 => (1i32..1000, -12i32..12).prop_map(|(k, e)| (k as f64 * 10f64.powi(e)).to_bits()),
        2 => (1u32..10000, 1usize..8).prop_map(|(k, p)| ((10f64.powi(p as i32) - 1.0 / k as f64)).to_bits()),
        1 => proptest::sample::select(vec![0.0f64, -0.0, f64::MAX, f64::MIN_POSITIVE, 5e-324, 1.0, -1.0])
            .prop_map(|x| x.to_bits()),
        1 => proptest::sample::select(vec![f64::NAN, f64::INFINITY, f64::NEG_INFINITY]).prop_map(|x| x.to_bits()),
    ]
}

pub fn c18() -> Property {
    let oracle = |c: &IoCase, cx: &mut Cx| -> Res {
        let root = fresh(cx, "c");
        let r = run_io(c, &root)?;
        if judge_failure(c, &r.result, &r.rec)? {
            cx.label("failed run");
        }
        check_files(c, &root, &r.outputs)?;
        for s in &c.streams {
            cx.label(format!(
                "{} {}",
                if s.scalar { "scalar" } else { "vector" },
                if s.csv { "csv" } else { "tsv" }
            ));
        }
        if r.outputs.len() > 1 {
            cx.nontrivial();
        }
        Ok(())
    };
    let rstrat = || {
        (
            case_with(1..4, false, 3.0),
            proptest::collection::vec(any_float(), 60),
            any_float(),
            any_float(),
            prop_oneof![0usize..20, any::<usize>()],
        )
            .prop_map(|(mut c, bits, t, dt, iter)| {
                c.x.n_out = 5;
                RawCase { c, bits, t, dt, iter }
            })
    };
    let roracle = |q: &RawCase, cx: &mut Cx| -> Res {
        let root = fresh(cx, "c");
        let c = &q.c;
        let mut sim = match c.build(&root) {
            Ok(s) => s,
            Err(e) => return fail(format!("valid configuration rejected: {e}")),
        };
        let mut outputs = vec![];
        for k in 0..3usize {
            let get = |n: usize| f64::from_bits(q.bits[(n + 17 * k) % q.bits.len()]);
            let (e, s) = (c.x.e(), c.x.s);
            let prim: V2 = (0..e).map(|j| (0..s).map(|i| get(j * s + i)).collect()).collect();
            let cons: V2 = (0..e).map(|j| (0..s).map(|i| get(7 + j * s + i)).collect()).collect();
            let cs: Vec<f64> = (0..s).map(|i| get(31 + i)).collect();
            sim.set_prim(D::Cent, &prim);
            sim.set_cons(D::Cent, &cons);
            sim.set_c(D::Cent, &cs);
            // other locations hold something else
            for d in [D::West, D::East] {
                let junk: V2 = (0..e).map(|_| vec![-7.25; s]).collect();
                sim.set_prim(d, &junk);
                sim.set_cons(d, &junk);
                sim.set_c(d, &vec![-7.25; s]);
            }
            let ts = sim.ts();
            ts.t = f64::from_bits(q.t) * (1.0 + k as f64);
            ts.dt = f64::from_bits(q.dt) * (1.0 + k as f64);
            ts.iter = q.iter.wrapping_add(k);
            ts.dt_kind = [DtKind::Init, DtKind::Cfl, DtKind::ErrorDump][(k + q.iter) % 3];
            let kind = ["init", "cfl", "err"][(k + q.iter) % 3];
            let shown = Shown::now(&mut *sim, kind);
            if let Err(e) = sim.write_now() {
                return fail(format!("writing output {k} fails: {}", sim::errstr(&e)));
            }
            outputs.push(shown);
        }
        check_files(c, &root, &outputs)?;
        cx.nontrivial();
        Ok(())
    };
    Property {
        id: "C18",
        rule: "runs with at least two outputs; or states of arbitrary numbers written three times",
        parts: vec![
            part("runs", 2_500, 50_000, || case_with(1..4, false, 8.0), oracle),
            part("arbitrary-numbers", 6_000, 120_000, rstrat, roracle),
        ],
    }
}

// =====================================================================================================================
// C19 metadata
// =====================================================================================================================

fn bc_json(b: &Bc) -> Value {
    match b {
        None => json!("NoGradients"),
        Some(v) => json!({ "Custom": v.iter().map(|(j, m)| json!([j, format!("{:?}", m.conf())])).collect::<Vec<_>>() }),
    }
}

fn meta_json(c: &IoCase, root: &str) -> Value {
    let x = &c.x;
    let asc = x.asc.unwrap_or([0.001, 0.001, 0.08]);
    let mode = |l: Value| json!({ "Kt": { "limiter_mode": l } });
    json!({
        "print_banner": c.banner,
        "mesh_config": {"mode": "Cartesian", "xi_in": x.xi_in, "xi_out": x.xi_out},
        "physics_config": {"adiabatic_index": x.gamma, "units_mode": "SI"},
        "boundary_condition_west": bc_json(&x.bcw),
        "boundary_condition_east": bc_json(&x.bce),
        "numerics_config": {
            "numflux_config": match x.fx {
                Fx::Hll => json!("Hll"),
                Fx::None => mode(json!("NoLimiter")),
                Fx::MinMod => mode(json!("MinMod")),
                Fx::Superbee => mode(json!("Superbee")),
                Fx::Monocent(t) => mode(json!({ "Monocent": t })),
                Fx::VanLeer => mode(json!("VanLeer")),
            },
            "time_integration_config": {"Rkf": {
                "rkf_mode": format!("{:?}", x.rk),
                "asc": x.asc.is_some(),
                "asc_relative_tolerance": asc[0],
                "asc_absolute_tolerance": asc[1],
                "asc_timestep_friction": asc[2],
            }},
            "iter_max": x.iter_max,
            "t0": x.t0,
            "t_end": x.t_end,
            "dt_min": x.dt_min,
            "dt_max": x.dt_max,
            "dt_cfl_param": x.cfl,
        },
        "output_counter_max": x.n_out,
        "writer_config": c.streams.iter().map(|s| json!({
            "stream_mode": if s.file { "File" } else { "Stdout" },
            "formatting_mode": if s.csv { "CSV" } else { "TSV" },
            "string_conversion_mode": if s.scalar { "Scalar" } else { "Vector" },
            "folder_name": s.folder_name(root),
            "should_clear_out_folder": s.clear,
            "file_name": if s.named() { s.name.clone() } else { String::new() },
            "precision": s.precision,
            "should_print_ghostcells": s.ghost,
            "should_print_metadata": s.meta,
            "data_names": s.cols.iter().map(|c| c.json()).collect::<Vec<_>>(),
        })).collect::<Vec<_>>(),
    })
}

/// Names the first field of `want` that `have` does not hold with the same value
fn json_diff(have: &Value, want: &Value, at: &str) -> Option<String> {
    match (have, want) {
        (Value::Object(a), Value::Object(b)) => {
            for (k, w) in b {
                match a.get(k) {
                    None => return Some(format!("{at}.{k} is missing")),
                    Some(h) => {
                        if let Some(d) = json_diff(h, w, &format!("{at}.{k}")) {
                            return Some(d);
                        }
                    },
                }
            }
            None
        },
        (Value::Array(a), Value::Array(b)) => {
            if a.len() != b.len() {
                return Some(format!("{at} has {} entries instead of {}", a.len(), b.len()));
            }
            a.iter().zip(b).enumerate().find_map(|(k, (h, w))| json_diff(h, w, &format!("{at}[{k}]")))
        },
        (Value::Number(a), Value::Number(b)) => {
            let whole = |n: &serde_json::Number| n.as_u64().map(u128::from).or(n.as_f64().map(|x| x as u128));
            let same = a.as_f64() == b.as_f64() && (b.as_u64().is_none() || whole(a) == whole(b));
            (!same).then(|| format!("{at} is {a} instead of {b}"))
        },
        _ => (have != want).then(|| format!("{at} is {have} instead of {want}")),
    }
}

pub fn c19() -> Property {
    // boundary conditions of all kinds: nothing is run here
    let anybc = || {
        (
            any::<bool>(),
            proptest::collection::vec((0usize..3, proptest::sample::select(&ALL_BM[..])), 0..5),
        )
            .prop_map(|(plain, v)| if plain { None } else { Some(v) })
    };
    let strat = move || {
        (
            case_with(1..5, true, 8.0),
            anybc(),
            anybc(),
            any::<u8>(),
            prop_oneof![
                Just(usize::MAX),
                Just(usize::MAX - 2),
                1usize..1000,
                (0u32..64, any::<bool>()).prop_map(|(b, up)| if up { (1usize << b) + 1 } else { (1usize << b).max(2) - 1 }),
            ],
        )
            .prop_map(|(mut c, w, e, k, imax)| {
                let n = c.x.e();
                let fit = |b: Bc| b.map(|v| v.into_iter().map(|(j, m)| (j % n, m)).collect());
                c.x.bcw = fit(w);
                c.x.bce = fit(e);
                c.x.iter_max = imax;
                if k % 2 == 0 && c.x.rk.has_asc() {
                    c.x.asc = Some([0.1 / (1.0 + k as f64), 0.03 * (1.0 + k as f64), 0.001 * (1.0 + k as f64)]);
                }
                c
            })
    };
    let oracle = |c: &IoCase, cx: &mut Cx| -> Res {
        let root = fresh(cx, "c");
        // long metadata of a former run
        let mut old = 0;
        for s in c.streams.iter().filter(|s| s.file && s.meta && s.slash) {
            fs::create_dir_all(root.join(&s.folder)).unwrap();
            fs::write(root.join(s.meta_path()), vec![b'x'; 20_000]).unwrap();
            old += 1;
        }
        if let Err(e) = c.build(&root) {
            return fail(format!("valid configuration rejected: {e}"));
        }
        let want = meta_json(c, &c.root_name(&root));
        let have = tree(&root);
        let mut n = 0;
        for s in c.streams.iter().filter(|s| s.file) {
            let p = s.meta_path();
            need!(s.meta == have.contains_key(&p), "{p:?}: exists {}, requested {}", !s.meta, s.meta);
            if !s.meta {
                continue;
            }
            let txt = read(&root.join(&p))?;
            let got: Value = match serde_json::from_str(&txt) {
                Ok(v) => v,
                Err(e) => return fail(format!("{p:?} is not a JSON document: {e}")),
            };
            if let Some(d) = json_diff(&got, &want, "config") {
                return fail(format!("{p:?}: {d}"));
            }
            n += 1;
        }
        let meta_files = have.keys().filter(|k| !k.ends_with('/')).count();
        need!(meta_files == n, "{meta_files} files exist after the initialisation, {n} metadata files are requested");
        if n > 0 {
            cx.nontrivial();
            cx.label(format!("{n} files"));
        } else {
            cx.label("no metadata");
        }
        if old > 0 {
            cx.label("overwritten");
        }
        Ok(())
    };
    Property {
        id: "C19",
        rule: "configurations with at least one metadata file",
        parts: vec![part("metadata", 30_000, 600_000, strat, oracle)],
    }
}

// =====================================================================================================================
// C16 failing runs
// =====================================================================================================================

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FailCase {
    c: IoCase,
    kind: u8,
    at: f64,
    val: u8,
    eq: usize,
    cell: f64,
}

pub fn c16() -> Property {
    let strat = || {
        (case_with(1..3, false, 12.0), 0u8..7, 0.0f64..1.0, 0u8..6, 0usize..3, 0.0f64..1.0).prop_map(
            |(mut c, kind, at, val, eq, cell)| {
                if kind == 4 {
                    // hopeless tolerance
                    if !c.x.rk.has_asc() {
                        c.x.rk = Rk::RKF45;
                    }
                    c.x.asc = Some([1e-13, 1e-3, 0.08]);
                    c.x.dt_min = 0.05 * c.x.cfl * c.x.dx() / c.x.speed();
                    c.x.dt_min = c.x.dt_min.min(c.x.dt_max * 0.05);
                    c.x.n_out = c.x.n_out.min(4);
                    c.x.dt_min = c.x.dt_min.min(0.1 * (c.x.t_end - c.x.t0) / c.x.n_out.max(1) as f64);
                } else if kind != 5 {
                    c.x.asc = None;
                }
                if c.streams.len() == 1 {
                    // the file of times, iterations and kinds
                    c.streams[0].scalar = true;
                    c.streams[0].cols = vec![Col::Iter, Col::T, Col::DtKind, Col::Dt];
                }
                FailCase { c, kind, at, val, eq, cell }
            },
        )
    };
    let oracle = |f: &FailCase, cx: &mut Cx| -> Res {
        let x = &f.c.x;
        // without fault
        let clean = if f.kind != 4 && f.kind != 6 {
            let root = fresh(cx, "a");
            let r = run_io(&f.c, &root)?;
            if r.result.is_err() {
                cx.label("fails by itself");
                judge_failure(&f.c, &r.result, &r.rec)?;
                check_files(&f.c, &root, &r.outputs)?;
                return Ok(());
            }
            Some((r, tree(&root)))
        } else {
            None
        };
        let root = fresh(cx, "c");
        let mut c = f.c.clone();
        c.relative = false;
        let steps = clean.as_ref().map_or(0, |r| r.0.rec.len());
        let evals: u64 = clean.as_ref().map_or(0, |r| r.0.rec.iter().map(|s| s.evals).sum());
        let i = 2 + ((x.s - 4) as f64 * f.cell) as usize;
        let j = f.eq % x.e();
        let mut must_fail = true;
        let mut data = x.init();
        let what;
        match f.kind {
            0 => {
                // iteration limit
                c.x.iter_max = 1 + (f.at * steps as f64) as usize;
                if c.x.iter_max >= steps {
                    return discard("limit not reached");
                }
                what = "iteration limit";
            },
            1 => {
                // not reached
                c.x.iter_max = steps + 1 + (f.at * 3.0) as usize;
                must_fail = false;
                what = "higher iteration limit";
            },
            2 | 3 | 5 => what = "bad right-hand side",
            6 => {
                what = "bad initial state";
                let v = match f.val {
                    0 => f64::NAN,
                    1 => f64::INFINITY,
                    2 => f64::NEG_INFINITY,
                    _ if j == 1 => -f64::NAN,
                    3 => 0.0,
                    4 => -x.cells[i][j],
                    _ => -f64::NAN,
                };
                data.prim[j][i] = v;
            },
            _ => what = "tolerances that cannot be met",
        }
        let mut sim = match c.build_from(&root, data) {
            Ok(s) => s,
            Err(e) => return fail(format!("valid configuration rejected: {e}")),
        };
        let n = 1 + (f.at * evals as f64) as u64;
        if matches!(f.kind, 2 | 3 | 5) {
            let v = match f.val {
                0 => f64::NAN,
                1 => f64::INFINITY,
                2 => f64::NEG_INFINITY,
                _ => -f64::NAN,
            };
            sim::poison(n, v, j, i);
        }
        let (result, outputs, rec) = run_built(&c, &mut sim)?;
        if f.kind == 4 && result.is_ok() {
            return discard("the tolerances can be met");
        }
        need!(result.is_err() == must_fail, "{what}: the run returns {result:?}");
        if !must_fail {
            check_files(&c, &root, &outputs)?;
            cx.label(what);
            cx.nontrivial();
            return Ok(());
        }
        if f.kind == 0 {
            need!(rec.len() <= c.x.iter_max, "{} steps with an iteration limit of {}", rec.len(), c.x.iter_max);
        }
        need!(
            rec.iter().rev().skip(1).all(|s| s.ok),
            "{what}: the run goes on after a failed step"
        );
        // nothing else than the scheduled outputs and one more; compares times, iterations and states
        check_files(&c, &root, &outputs)?;
        need!(outputs.len() <= x.n_out.max(1) + 1, "{what}: more outputs than scheduled before the failure");
        if let Some((clean, files)) = clean {
            // the outputs before are as without the fault
            let now = tree(&root);
            for s in c.streams.iter() {
                for k in 0..outputs.len() - 1 {
                    let p = s.path(k, x.n_out);
                    if s.scalar {
                        let a = String::from_utf8_lossy(files[&p].as_ref().unwrap()).into_owned();
                        let b = String::from_utf8_lossy(now[&p].as_ref().unwrap()).into_owned();
                        need!(
                            a.lines().nth(k + 1) == b.lines().nth(k + 1),
                            "{what}: row {k} of {p:?} differs from the run without the fault"
                        );
                    } else {
                        need!(files[&p] == now[&p], "{what}: {p:?} differs from the run without the fault");
                    }
                }
            }
            let _ = clean;
        }
        cx.label(what);
        cx.label(if outputs.len() > 2 { "later output" } else { "before the first output" });
        cx.nontrivial();
        Ok(())
    };
    Property {
        id: "C16",
        rule: "runs that fail at a generated point, or whose limit is just not reached",
        parts: vec![part("faults", 5_000, 80_000, strat, oracle)],
    }
}

// =====================================================================================================================
// C20 folders
// =====================================================================================================================

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TreeCase {
    c: IoCase,
    /// place and kind of existing files
    files: Vec<(u8, u8, u8)>,
    /// a violation of the configuration, if any
    bad: Option<(u8, u8)>,
    run: bool,
}

fn existing(c: &IoCase, f: (u8, u8, u8)) -> (String, u8) {
    let s = &c.streams[f.1 as usize % c.streams.len()];
    let d = &s.folder;
    let up = d.rsplit_once('/').map_or(String::new(), |x| format!("{}/", x.0));
    if f.0 >= 128 {
        // all kinds of names in all kinds of places
        let last = d.rsplit('/').next().unwrap();
        let file = s.path((f.2 as usize / 16) % (c.x.n_out + 1), c.x.n_out);
        let file = file.rsplit('/').next().unwrap();
        let place = match f.0 % 8 {
            0 => format!("{d}/"),
            1 => format!("{d}/sub/"),
            2 | 3 => up.clone(),
            4 => String::new(),
            5 => format!("{d}_more/"),
            6 => format!("{up}sibling/"),
            _ => format!("sub/{d}/"),
        };
        let name = match f.2 % 16 {
            0 | 1 => s.name.clone(),
            2 => format!("{}.{}", s.name, s.ext()),
            3 => file.to_string(),
            4 => format!("{file}.tmp"),
            5 => format!("{file}~"),
            6 => format!(".{file}.swp"),
            7 => format!("{file}.bak"),
            8 => format!("{}_metadata.json", s.name),
            9 => format!("{}__metadata.json", s.name),
            10 => format!("{}.json", s.name),
            11 => format!("{}.lock", s.name),
            12 => format!("{}_.{}", s.name, s.ext()),
            13 => format!("{last}.txt"),
            14 => format!("{last}.old"),
            _ => format!("{}_{}.{}", s.name, f.2 / 16, if s.csv { "tsv" } else { "csv" }),
        };
        return (place + &name, f.2);
    }
    let name = match f.0 % 16 {
        0 => format!("{d}/old.txt"),
        1 => format!("{d}/sub/deeper/old.csv"),
        2 => s.path((f.2 as usize) % (c.x.n_out + 1), c.x.n_out),
        3 => s.meta_path(),
        4 => format!("{d}/{}_{}.{}", s.name, 7777 + f.2 as usize, s.ext()),
        5 if f.2 % 4 == 0 => d.clone(),
        5 => format!("{d}/{}", s.name),
        6 => format!("{up}beside{}.txt", f.2),
        7 => format!("{d}_more/old.txt"),
        8 => "keep.txt".to_string(),
        9 => "else/where/keep.csv".to_string(),
        10 => format!("{d}/.hidden"),
        11 => format!("{up}{}.{}", s.name, s.ext()),
        12 => format!("{d}/{}_x.{}", s.name, s.ext()),
        13 => format!("{d}/empty{}/", f.2 % 3),
        14 => format!("{d}/link{}@", f.2 % 3),
        _ => format!("{d}/{}.{}", s.name.to_uppercase(), s.ext()),
    };
    (name, f.2)
}

pub fn c20() -> Property {
    let strat = || {
        (
            case_with(1..4, true, 4.0),
            proptest::collection::vec((any::<u8>(), any::<u8>(), any::<u8>()), 0..10),
            prop_oneof![2 => Just(None), 1 => (any::<u8>(), any::<u8>()).prop_map(Some)],
            prop_oneof![3 => Just(true), 1 => Just(false)],
        )
            .prop_map(|(mut c, files, bad, run)| {
                c.x.n_out = c.x.n_out.min(12);
                TreeCase { c, files, bad, run }
            })
    };
    let oracle = |q: &TreeCase, cx: &mut Cx| -> Res {
        let root = fresh(cx, "c");
        let c = &q.c;
        for f in &q.files {
            let (name, v) = existing(c, *f);
            let p = root.join(name.trim_end_matches(['/', '@']));
            if p.symlink_metadata().is_ok() {
                continue;
            }
            if fs::create_dir_all(p.parent().unwrap()).is_err() {
                continue;
            }
            if name.ends_with('/') {
                let _ = fs::create_dir(&p);
            } else if name.ends_with('@') {
                // a folder and a file outside
                fs::create_dir_all(root.join("outside")).unwrap();
                fs::write(root.join("outside/precious"), b"OLD precious").unwrap();
                let to = if v % 2 == 0 { root.join("outside") } else { root.join("outside/precious") };
                std::os::unix::fs::symlink(to, &p).unwrap();
            } else {
                let txt = format!("OLD {} ", v).repeat(1 + 40 * (v as usize % 7));
                let _ = fs::write(&p, txt);
            }
        }
        let before = tree(&root);
        if let Some(bad) = q.bad {
            let mut conf = c.conf(&c.root_name(&root));
            let Some(what) = spoil(&mut conf, c, bad) else { return discard("violation does not apply") };
            let r = build_conf(&conf, c);
            need!(r.is_err(), "{what}: the configuration is accepted");
            let after = tree(&root);
            need!(
                before == after,
                "{what}: the rejected configuration changed {:?}",
                changed(&before, &after)
            );
            cx.label("rejected");
            if !before.is_empty() {
                cx.nontrivial();
            }
            return Ok(());
        }
        // a file is where a folder should be
        let blocked = c.streams.iter().filter(|s| s.file).find_map(|s| {
            let n = s.folder.split('/').count();
            (1..=n)
                .map(|n| s.folder.split('/').take(n).collect::<Vec<_>>().join("/"))
                .find(|d| root.join(d).exists() && !root.join(d).is_dir())
        });
        let cleared = |k: &String| c.streams.iter().any(|s| s.file && s.clear && k.starts_with(&format!("{}/", s.folder)));
        let mut sim = match (c.build(&root), blocked) {
            (_, Some(at)) if cleared(&at) => return discard("the file in place of a folder is in another folder that is cleared"),
            (Ok(s), None) => s,
            (Err(e), None) => return fail(format!("valid configuration rejected: {e}")),
            (r, Some(at)) => {
                let after = tree(&root);
                for (k, v) in &before {
                    need!(after.get(k) == Some(v) || cleared(k), "a file is in place of the folder {at:?}: {k} is changed");
                }
                for k in after.keys().filter(|k| !before.contains_key(*k)) {
                    let known = |f: &String| k.starts_with(&format!("{f}/")) || format!("{f}/").starts_with(k.as_str());
                    need!(c.streams.iter().any(|s| s.file && known(&s.folder)), "a file is in place of the folder {at:?}: {k} is new");
                }
                need!(r.is_err(), "a file is in place of the folder {at:?}, but the initialisation succeeds");
                cx.label("file in place of a folder");
                cx.nontrivial();
                return Ok(());
            },
        };
        let mut written: Vec<String> = vec![];
        for s in c.streams.iter().filter(|s| s.file && s.meta) {
            written.push(s.meta_path());
        }
        if q.run {
            let (result, outputs, rec) = run_built(c, &mut sim)?;
            judge_failure(c, &result, &rec)?;
            for s in c.streams.iter().filter(|s| s.file) {
                for k in 0..outputs.len() {
                    written.push(s.path(k, c.x.n_out));
                }
            }
        }
        let mut want = before.clone();
        for s in c.streams.iter().filter(|s| s.file && s.clear) {
            want.retain(|k, _| !k.starts_with(&format!("{}/", s.folder)));
        }
        for s in c.streams.iter().filter(|s| s.file) {
            let mut d = String::new();
            for part in s.folder.split('/') {
                d += &format!("{part}/");
                want.insert(d.clone(), None);
            }
        }
        let after = tree(&root);
        for w in &written {
            want.remove(w);
            match after.get(w) {
                None => return fail(format!("{w:?} was not written")),
                Some(Some(txt)) => {
                    need!(!txt.windows(4).any(|b| b == b"OLD "), "{w:?} still holds content from before the run");
                },
                Some(None) => return fail(format!("{w:?} cannot be read")),
            }
        }
        let mut rest = after;
        rest.retain(|k, _| !written.contains(k));
        need!(rest == want, "unexpected changes: {:?}", changed(&want, &rest));
        cx.label(if q.run { "run" } else { "only initialised" });
        if c.streams.iter().any(|s| s.file && s.clear) {
            cx.label("with clearing");
        }
        if !before.is_empty() && c.streams.iter().any(|s| s.file) {
            cx.nontrivial();
        }
        Ok(())
    };
    Property {
        id: "C20",
        rule: "folders with existing files, and at least one file stream or a rejected configuration",
        parts: vec![part("trees", 6_000, 120_000, strat, oracle)],
    }
}

type Tree = BTreeMap<String, Option<Vec<u8>>>;
fn changed(a: &Tree, b: &Tree) -> Vec<String> {
    let mut out = vec![];
    for (k, v) in a {
        match b.get(k) {
            None => out.push(format!("{k} is missing")),
            Some(w) if w != v => out.push(format!("{k} has other content")),
            _ => {},
        }
    }
    for k in b.keys() {
        if !a.contains_key(k) {
            out.push(format!("{k} is new"));
        }
    }
    out.truncate(5);
    out
}

/// Initialises with a given configuration. Panics of corries are failures of the case.
fn build_conf(conf: &CorriesConfig, c: &IoCase) -> Result<Box<dyn Sim>, String> {
    sim::build(conf, c.x.ad, c.x.s, c.x.init()).map_err(|e| sim::errstr(&e))
}

// =====================================================================================================================
// C21 validation
// =====================================================================================================================

/// Violates one documented constraint of a valid configuration
fn spoil(conf: &mut CorriesConfig, c: &IoCase, (k, v): (u8, u8)) -> Option<String> {
    let e = c.x.e();
    let nonpos = [0.0, -0.0, -1.0, -1e-300, -5e-324, -1e300, f64::NAN, f64::NEG_INFINITY][v as usize % 8];
    let n = &mut conf.numerics_config;
    let at = v as usize % conf.writer_config.len().max(1);
    let TimeIntegrationConfig::Rkf(ref mut rkf) = n.time_integration_config;
    let one_more = [e, e + 1, 3, 4, 100, usize::MAX][v as usize % 6].max(e);
    Some(match k % 22 {
        0 => {
            let m = &mut conf.mesh_config;
            match v % 4 {
                0 => std::mem::swap(&mut m.xi_in, &mut m.xi_out),
                1 => m.xi_out = m.xi_in,
                2 => m.xi_out = m.xi_in - 1e-12 * m.xi_in.abs(),
                _ => m.xi_out = f64::NEG_INFINITY,
            }
            format!("xi_in = {:e}, xi_out = {:e}", m.xi_in, m.xi_out)
        },
        1 => {
            let m = &mut conf.mesh_config;
            match v % 4 {
                0 => m.xi_in = f64::NAN,
                1 => m.xi_out = f64::NAN,
                2 => m.xi_out = f64::INFINITY,
                _ => m.xi_in = f64::NEG_INFINITY,
            }
            format!("xi_in = {:e}, xi_out = {:e}", m.xi_in, m.xi_out)
        },
        2 | 3 => {
            let g = [1.0, 2.0, 0.5, 0.999999999999, 2.000000000001, 0.0, -1.4, 3.0, f64::NAN, f64::INFINITY, -1.5]
                [v as usize % 11];
            conf.physics_config.adiabatic_index = g;
            format!("adiabatic_index = {g}")
        },
        4 => {
            n.iter_max = 0;
            "iter_max = 0".to_string()
        },
        5 => {
            n.t0 = [-1.0, -1e-300, f64::NAN, f64::NEG_INFINITY][v as usize % 4];
            format!("t0 = {:e}", n.t0)
        },
        6 | 7 => {
            n.t_end = match v % 5 {
                0 => n.t0,
                1 => n.t0 * 0.5 - 1e-3,
                2 => f64::NAN,
                3 => f64::NEG_INFINITY,
                _ => -n.t_end,
            };
            format!("t0 = {:e}, t_end = {:e}", n.t0, n.t_end)
        },
        8 => {
            n.dt_min = nonpos;
            format!("dt_min = {nonpos:e}")
        },
        9 => {
            n.dt_max = nonpos;
            format!("dt_max = {nonpos:e}")
        },
        10 => {
            n.dt_cfl_param = nonpos;
            format!("dt_cfl_param = {nonpos:e}")
        },
        11 => {
            rkf.asc_relative_tolerance = nonpos;
            format!("asc_relative_tolerance = {nonpos:e}")
        },
        12 => {
            rkf.asc_absolute_tolerance = nonpos;
            format!("asc_absolute_tolerance = {nonpos:e}")
        },
        13 => {
            rkf.asc_timestep_friction = nonpos;
            format!("asc_timestep_friction = {nonpos:e}")
        },
        14 => {
            let p = [1.0, 0.999999, 0.0, -1.0, -2.0, f64::NAN, f64::NEG_INFINITY][v as usize % 7];
            n.numflux_config = NumFluxConfig::Kt {
                limiter_mode: LimiterMode::Monocent(p),
            };
            format!("Monocent({p})")
        },
        15 => {
            let o = conf.writer_config.get_mut(at).filter(|o| o.stream_mode == StreamMode::File)?;
            o.folder_name = String::new();
            format!("empty folder_name of stream {at}")
        },
        16 => {
            let o = conf.writer_config.get_mut(at).filter(|o| o.stream_mode == StreamMode::File)?;
            o.file_name = String::new();
            format!("empty file_name of stream {at}")
        },
        17 => {
            let o = conf.writer_config.get_mut(at)?;
            o.data_names.clear();
            format!("no columns in stream {at}")
        },
        18 => {
            let o = conf.writer_config.get_mut(at)?;
            if o.string_conversion_mode != ToStringConversionMode::Scalar {
                return None;
            }
            let pos = v as usize % (o.data_names.len() + 1);
            let name = [
                DataName::XiCent,
                DataName::XiWest,
                DataName::XiEast,
                DataName::Prim(0),
                DataName::Cons(1),
                DataName::CSound,
            ][v as usize % 6];
            o.data_names.insert(pos, name);
            format!("{name:?} in the scalar stream {at}")
        },
        19 => {
            let o = conf.writer_config.get_mut(at)?;
            if o.string_conversion_mode == ToStringConversionMode::Scalar {
                return None;
            }
            let pos = v as usize % (o.data_names.len() + 1);
            let name = if v % 2 == 0 { DataName::Prim(one_more) } else { DataName::Cons(one_more) };
            o.data_names.insert(pos, name);
            format!("{name:?} with {e} equations in stream {at}")
        },
        _ => {
            let b = if k % 2 == 0 { &mut conf.boundary_condition_west } else { &mut conf.boundary_condition_east };
            let mode = ALL_BM[v as usize % 8].conf();
            let entry = (one_more, mode);
            match b {
                BoundaryMode::Custom(list) => {
                    let pos = v as usize % (list.len() + 1);
                    list.insert(pos, entry)
                },
                _ => *b = BoundaryMode::Custom(vec![entry]),
            }
            format!("boundary condition {mode:?} for equation {one_more} of {e}")
        },
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ConfCase {
    c: IoCase,
    bad: (u8, u8),
    /// extreme, but valid settings
    edge: u8,
}

pub fn c21() -> Property {
    let strat = || {
        (case_with(0..4, true, 4.0), (any::<u8>(), any::<u8>()), any::<u8>()).prop_map(|(c, bad, edge)| ConfCase {
            c,
            bad,
            edge,
        })
    };
    fn edges(c: &mut IoCase, k: u8) -> &'static str {
        let x = &mut c.x;
        match k % 16 {
            0 => {
                x.gamma = 1.0 + 1e-9;
                "gamma close to 1"
            },
            1 => {
                x.gamma = 2.0 - 1e-9;
                "gamma close to 2"
            },
            2 => {
                x.iter_max = 1;
                "iter_max 1"
            },
            3 => {
                x.iter_max = usize::MAX;
                "largest iter_max"
            },
            4 => {
                x.t0 = 0.0;
                "t0 = 0"
            },
            5 => {
                x.dt_min = 5e-324;
                "tiny dt_min"
            },
            6 => {
                x.dt_min = 1e300;
                "huge dt_min"
            },
            7 => {
                x.dt_max = 1e-300;
                "tiny dt_max"
            },
            8 => {
                x.fx = Fx::Monocent(1.0 + 1e-12);
                "Monocent close to 1"
            },
            9 => {
                x.fx = Fx::Monocent(1e6);
                "large Monocent"
            },
            10 => {
                x.n_out = 0;
                "no outputs"
            },
            11 => {
                x.n_out = 1_000_000;
                "many outputs"
            },
            12 => {
                // the same equation twice
                let e = x.e();
                x.bcw = Some(ALL_BM.iter().enumerate().map(|(k, m)| (k % e, *m)).collect());
                "boundary conditions of all kinds"
            },
            13 => {
                x.bce = Some(vec![]);
                "no boundary conditions"
            },
            14 => {
                x.t0 = 1e5;
                x.t_end = 1e5 + 1e-9;
                "short run"
            },
            _ => "plain",
        }
    }
    let oracle = |q: &ConfCase, cx: &mut Cx| -> Res {
        let root = fresh(cx, "c");
        let mut c = q.c.clone();
        let edge = edges(&mut c, q.edge);
        let mut conf = c.conf(&c.root_name(&root));
        if let Err(e) = build_conf(&conf, &c) {
            return fail(format!("valid configuration ({edge}) rejected: {e}"));
        }
        cx.label(edge);
        if let Some(what) = spoil(&mut conf, &c, q.bad) {
            need!(build_conf(&conf, &c).is_err(), "{what}: the configuration is accepted");
            cx.label(what.split(['=', '(']).next().unwrap().trim().to_string());
            cx.nontrivial();
        }
        Ok(())
    };
    // flux types and their configuration
    let fstrat = || {
        (
            scn(Opt {
                sizes: &[12],
                steps: 3.0,
                ..Opt::default()
            }),
            any::<bool>(),
        )
    };
    let foracle = |(x, hll): &(Scn, bool), cx: &mut Cx| -> Res {
        let r = sim::build_plain(&x.conf(), x.ad, *hll, x.init());
        let fits = x.fx.is_hll() == *hll;
        need!(
            r.is_ok() == fits,
            "a configuration for {} {} by the type for {}",
            x.fx.name(),
            if r.is_ok() { "is accepted" } else { "is rejected" },
            if *hll { "HLL" } else { "KT" }
        );
        cx.label(if fits { "matching flux" } else { "other flux" });
        cx.nontrivial();
        Ok(())
    };
    Property {
        id: "C21",
        rule: "a valid configuration, and the same one with one violated constraint; flux types with matching and \
               other configurations",
        parts: vec![
            part("constraints", 60_000, 1_200_000, strat, oracle),
            part("flux-types", 8_000, 160_000, fstrat, foracle),
        ],
    }
}

// =====================================================================================================================
// child processes
// =====================================================================================================================

/// How the process of a simulation ends before its time
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum End {
    Kill,
    Abort,
    Exit,
    Panic,
}
fn end(e: End) {
    unsafe {
        match e {
            End::Kill => {
                libc::kill(libc::getpid(), libc::SIGKILL);
            },
            End::Abort => {
                // no core files
                let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &l);
                libc::abort()
            },
            End::Exit => libc::_exit(0),
            End::Panic => panic!("panic of the harness"),
        }
    }
}

/// `verif child <case file> <root> <file size limit> [<end> <step>]`: initialises and runs with the real standard
/// output. A negative limit kills the process that exceeds it.
pub fn child(args: &[String]) -> i32 {
    let c: IoCase = serde_json::from_str(&fs::read_to_string(&args[0]).unwrap()).unwrap();
    let root = PathBuf::from(&args[1]);
    let limit: i64 = args[2].parse().unwrap();
    if limit != 0 {
        unsafe {
            if limit > 0 {
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            } else {
                // whoever started the check may have left the signal ignored or blocked
                libc::signal(libc::SIGXFSZ, libc::SIG_DFL);
                let mut set: libc::sigset_t = std::mem::zeroed();
                libc::sigemptyset(&mut set);
                libc::sigaddset(&mut set, libc::SIGXFSZ);
                libc::sigprocmask(libc::SIG_UNBLOCK, &set, std::ptr::null_mut());
                let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &l);
            }
            let limit = limit.unsigned_abs();
            let l = libc::rlimit {
                rlim_cur: limit,
                rlim_max: limit,
            };
            if libc::setrlimit(libc::RLIMIT_FSIZE, &l) != 0 {
                return 20;
            }
        }
    }
    let stop: Option<(End, usize)> = args.get(3).map(|a| serde_json::from_str(a).unwrap());
    let r = std::panic::catch_unwind(|| {
        let mut sim = match c.build(&root) {
            Ok(s) => s,
            Err(_) => return 10,
        };
        if let Some((e, n)) = stop {
            sim::at_step(n, move || end(e));
        }
        match sim.run() {
            Ok(()) => 0,
            Err(_) => 11,
        }
    });
    r.unwrap_or(12)
}

struct ChildOut {
    code: i32,
    stdout: String,
}

fn run_child(cx: &Cx, c: &IoCase, root: &Path, limit: u64, stdout_to: Option<&Path>) -> Res<ChildOut> {
    run_child_until(cx, c, root, limit as i64, stdout_to, None)
}
fn run_child_until(
    cx: &Cx,
    c: &IoCase,
    root: &Path,
    limit: i64,
    stdout_to: Option<&Path>,
    stop: Option<(End, usize)>,
) -> Res<ChildOut> {
    use std::process::{Command, Stdio};
    let case = cx.dir.join("child.json");
    fs::write(&case, serde_json::to_string(c).unwrap()).unwrap();
    let h = |e: std::io::Error| Stop::Harness(format!("child process: {e}"));
    let mut cmd = Command::new(std::env::current_exe().map_err(h)?);
    cmd.arg("child")
        .arg(&case)
        .arg(root)
        .arg(limit.to_string())
        .args(stop.map(|s| serde_json::to_string(&s).unwrap()))
        .env("RAYON_NUM_THREADS", "4")
        .stdin(Stdio::null())
        .stderr(Stdio::null());
    match stdout_to {
        Some(p) => {
            let f = fs::OpenOptions::new().write(true).create(true).truncate(true).open(p).map_err(h)?;
            cmd.stdout(f);
        },
        None => {
            cmd.stdout(Stdio::piped());
        },
    }
    let out = cmd.spawn().map_err(h)?.wait_with_output().map_err(h)?;
    let code = out.status.code().unwrap_or(-1);
    if code == 20 {
        return Err(Stop::Harness("setrlimit fails".into()));
    }
    Ok(ChildOut {
        code,
        stdout: String::from_utf8_lossy(&out.stdout).into_owned(),
    })
}

// =====================================================================================================================
// C30 standard output
// =====================================================================================================================

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for k in 0..=p.len() {
            let mut q = p.clone();
            q.insert(k, n - 1);
            out.push(q);
        }
    }
    out
}

fn check_stdout(c: &IoCase, root: &Path, outputs: &[Shown], txt: &str) -> Res {
    let mut rest = txt;
    if c.banner {
        let mut n = 0;
        let mut named = false;
        while let Some((line, r)) = rest.split_once('\n') {
            // the first header of a TSV stream or other content ends the banner
            if !(line.starts_with("# *") || line.starts_with("# ") && n > 0 && n < 12) || n > 0 && named && line.starts_with("# *") {
                if line.starts_with("# *") {
                    rest = r;
                    n += 1;
                }
                break;
            }
            named |= line.contains("Corries");
            rest = r;
            n += 1;
        }
        need!(n > 1 && named, "the banner is missing: output starts with {:?}", txt.lines().next());
    }
    let streams: Vec<&Stream> = c.streams.iter().filter(|s| !s.file).collect();
    let n_meta = streams.iter().filter(|s| s.meta).count();
    if n_meta > 0 {
        let want = meta_json(c, &c.root_name(root));
        let mut docs = serde_json::Deserializer::from_str(rest).into_iter::<Value>();
        for k in 0..n_meta {
            match docs.next() {
                Some(Ok(v)) => {
                    if let Some(d) = json_diff(&v, &want, "config") {
                        return fail(format!("metadata {k}: {d}"));
                    }
                },
                Some(Err(e)) => return fail(format!("metadata {k} of {n_meta} is not a JSON document: {e}")),
                None => return fail(format!("metadata {k} of {n_meta} is missing")),
            }
        }
        let off = docs.byte_offset();
        rest = rest[off..].strip_prefix('\n').unwrap_or(&rest[off..]);
    }
    need!(rest.is_empty() || rest.ends_with('\n'), "the last line is incomplete");
    let lines: Vec<&str> = rest.lines().collect();
    let mut at = 0;
    let perms = permutations(streams.len());
    for (k, o) in outputs.iter().enumerate() {
        let total: usize = streams.iter().map(|s| s.lines(c.x.s, k == 0)).sum();
        need!(
            at + total <= lines.len(),
            "output {k} needs lines {at} to {}, but there are {} lines only",
            at + total,
            lines.len()
        );
        let mut first_err = None;
        let mut found = false;
        for p in &perms {
            let mut pos = at;
            let r = (|| -> Res {
                for &n in p {
                    let s = streams[n];
                    let len = s.lines(c.x.s, k == 0);
                    let mut block = &lines[pos..pos + len];
                    if !s.scalar || k == 0 {
                        check_header(s, block[0])?;
                        block = &block[1..];
                    }
                    check_rows(&c.x, s, block, o, &format!("output {k} on stdout"))?;
                    pos += len;
                }
                Ok(())
            })();
            match r {
                Ok(()) => {
                    found = true;
                    break;
                },
                e => {
                    first_err.get_or_insert(e);
                },
            }
        }
        if !found {
            return first_err.unwrap_or(Ok(()));
        }
        at += total;
    }
    need!(
        at == lines.len(),
        "{} unexpected lines after {} outputs, the first one is {:?}",
        lines.len() - at,
        outputs.len(),
        lines[at]
    );
    Ok(())
}

pub fn c30() -> Property {
    let strat = || {
        (case_with(1..4, true, 8.0), 0u8..4).prop_map(|(mut c, k)| {
            // mostly few outputs
            if c.x.n_out < 990 {
                c.x.n_out = if c.x.n_out > 105 { c.x.n_out } else { c.x.n_out.min(12) };
            }
            c.relative = false;
            if k > 0 {
                for s in c.streams.iter_mut().take(k as usize) {
                    s.file = false;
                }
            }
            c
        })
    };
    let oracle = |c: &IoCase, cx: &mut Cx| -> Res {
        // the model: the same run without streams
        let root = fresh(cx, "c");
        let mut bare = c.clone();
        bare.streams.clear();
        bare.banner = false;
        let r = run_io(&bare, &root)?;
        let failed = judge_failure(c, &r.result, &r.rec)?;
        // names of folders are in the metadata
        let out = run_child(cx, c, &root, 0, None)?;
        need!(
            out.code == if failed { 11 } else { 0 },
            "the run with these streams ends with code {} ({})",
            out.code,
            match out.code {
                0 => "success",
                10 => "initialisation fails",
                11 => "run fails",
                12 => "panic",
                _ => "?",
            }
        );
        if let Err(e) = check_stdout(c, &root, &r.outputs, &out.stdout) {
            return Err(e);
        }
        check_files(c, &root, &r.outputs)?;
        let n = c.streams.iter().filter(|s| !s.file).count();
        cx.label(format!("{n} stdout streams"));
        if c.banner {
            cx.label("banner");
        }
        if n > 0 && r.outputs.len() > 1 {
            cx.nontrivial();
        }
        Ok(())
    };
    Property {
        id: "C30",
        rule: "runs in a child process with at least one stdout stream and two outputs",
        parts: vec![part("child-runs", 3_000, 60_000, strat, oracle)],
    }
}

// =====================================================================================================================
// C22 output that cannot be written
// =====================================================================================================================

#[derive(Clone, Debug, Serialize, Deserialize)]
struct IoFault {
    c: IoCase,
    stream: usize,
    kind: u8,
    at: f64,
}

pub fn c22() -> Property {
    let strat = || {
        (case_with(1..4, false, 6.0), 0usize..8, 0u8..16, 0.0f64..1.0).prop_map(|(mut c, stream, kind, at)| {
            c.x.n_out = 1 + c.x.n_out % 12;
            c.x.asc = None;
            for s in c.streams.iter_mut() {
                s.clear = false;
            }
            IoFault { c, stream, kind, at }
        })
    };
    let oracle = |f: &IoFault, cx: &mut Cx| -> Res {
        use std::os::unix::fs::{symlink, PermissionsExt};
        let c = &f.c;
        let x = &c.x;
        let root = fresh(cx, "a");
        let good = run_io(c, &root)?;
        if good.result.is_err() {
            return discard("the run fails");
        }
        let outs = good.outputs.len();
        let s = c.streams[f.stream % c.streams.len()].clone();
        let k = ((f.at * outs as f64) as usize).min(outs - 1);
        let root = fresh(cx, "c");
        let dir = root.join(&s.folder);
        let target = root.join(s.path(k, x.n_out));
        let full = Path::new("/dev/full");
        let mode = |p: &Path, m: u32| fs::set_permissions(p, fs::Permissions::from_mode(m)).unwrap();
        let mut mid: Option<Box<dyn FnOnce()>> = None;
        // the step after which output k is due
        let step = if k == 0 { 0 } else { good.outputs[k].iter - 1 };
        let what = match f.kind {
            0 | 1 => {
                fs::create_dir_all(&dir).unwrap();
                symlink(full, &target).unwrap();
                "full device"
            },
            2 => {
                fs::create_dir_all(&target).unwrap();
                "folder in place of the file"
            },
            3 => {
                fs::create_dir_all(&dir).unwrap();
                fs::write(&target, b"x").unwrap();
                mode(&target, 0o444);
                "read-only file"
            },
            4 => {
                fs::create_dir_all(&dir).unwrap();
                mode(&dir, 0o555);
                "read-only folder"
            },
            5 => {
                let first = s.folder.split('/').next().unwrap();
                fs::write(root.join(first), b"x").unwrap();
                "file in place of the folder"
            },
            6 => {
                fs::create_dir_all(&dir).unwrap();
                symlink(root.join("missing/file"), &target).unwrap();
                "dangling link"
            },
            7 | 8 => {
                if !s.meta {
                    return discard("no metadata");
                }
                fs::create_dir_all(&dir).unwrap();
                let p = root.join(s.meta_path());
                if f.kind == 7 {
                    symlink(full, &p).unwrap();
                    "full device for the metadata"
                } else {
                    fs::create_dir_all(&p).unwrap();
                    "folder in place of the metadata"
                }
            },
            9 => {
                let (d, t) = (dir.clone(), root.clone());
                mid = Some(Box::new(move || fs::rename(&d, t.join("moved")).unwrap()));
                "folder disappears"
            },
            10..=12 => {
                let (p, kind) = (target.clone(), f.kind);
                mid = Some(Box::new(move || {
                    let _ = fs::remove_file(&p);
                    match kind {
                        10 => symlink("/dev/full", &p).unwrap(),
                        11 => fs::create_dir(&p).unwrap(),
                        _ => {
                            fs::write(&p, b"x").unwrap();
                            fs::set_permissions(&p, fs::Permissions::from_mode(0o444)).unwrap();
                        },
                    }
                }));
                match f.kind {
                    10 => "device gets full",
                    11 => "file replaced by a folder",
                    _ => "file gets read-only",
                }
            },
            _ => {
                // the largest files do not fit: a limit in a child process
                let sizes: Vec<u64> = tree(&cx.dir.join("a")).values().flatten().map(|b| b.len() as u64).collect();
                let max = *sizes.iter().max().unwrap();
                let limit = 1 + (f.at * (max - 1) as f64) as u64;
                let mut c2 = c.clone();
                c2.relative = false;
                // sizes of metadata depend on the names of folders
                if c2.streams.iter().any(|s| s.meta) {
                    for s in c2.streams.iter_mut() {
                        s.meta = false;
                    }
                    let r2 = fresh(cx, "a");
                    run_io(&c2, &r2)?;
                }
                let sizes: Vec<u64> = tree(&cx.dir.join("a")).values().flatten().map(|b| b.len() as u64).collect();
                let max = *sizes.iter().max().unwrap();
                let limit = limit.min(max - 1);
                if limit == 0 {
                    return discard("empty files");
                }
                let out = run_child(cx, &c2, &root, limit, None)?;
                need!(
                    out.code == 10 || out.code == 11,
                    "files cannot grow beyond {limit} bytes, {max} are needed: the run ends with {} instead of an error",
                    if out.code == 0 { "success".to_string() } else { format!("code {}", out.code) }
                );
                cx.label("file size limit");
                cx.nontrivial();
                return Ok(());
            },
        };
        if matches!(f.kind, 3 | 4 | 12) && unsafe { libc::geteuid() } == 0 {
            wipe(&root);
            return discard("permissions do not matter for root");
        }
        let rel = c.clone();
        let result = (|| -> Result<(), String> {
            let mut sim = rel.build(&root)?;
            if let Some(h) = mid {
                sim::at_step(step, h);
            }
            sim.run().map_err(|e| sim::errstr(&e))
        })();
        // before the first output there is no step to intervene at
        let too_late = f.kind >= 9 && k == 0 && outs < 2;
        if f.kind == 4 && target.exists() {
            return discard("folder not read-only");
        }
        if !too_late {
            // an intervention at step 0 hits output 0 when it is over: vector files of it are not written again
            let harmless = f.kind >= 10 && k == 0 && !s.scalar;
            if !harmless {
                need!(
                    result.is_err(),
                    "{what} for output {k} of {} ({}): the run reports success",
                    outs,
                    if s.scalar { "scalar" } else { "vector" }
                );
                cx.label(what);
                cx.nontrivial();
            }
        }
        unlock(&root);
        Ok(())
    };
    // standard output that is full from the start or after some bytes
    let ostrat = || {
        (case_with(1..3, true, 5.0), 0.0f64..1.0, any::<bool>()).prop_map(|(mut c, at, full)| {
            c.x.n_out = 1 + c.x.n_out % 5;
            c.x.asc = None;
            c.banner = false;
            c.relative = false;
            c.streams[0].file = false;
            for s in c.streams.iter_mut() {
                s.meta &= full;
            }
            (c, at, full)
        })
    };
    let ooracle = |(c, at, full): &(IoCase, f64, bool), cx: &mut Cx| -> Res {
        let root = fresh(cx, "c");
        let ok = run_child(cx, c, &root, 0, None)?;
        if ok.code != 0 {
            return discard("the run fails");
        }
        let n = ok.stdout.len() as u64;
        let (to, limit) = if *full {
            (PathBuf::from("/dev/full"), 0)
        } else {
            (cx.dir.join("stdout"), 1 + (at * (n - 1) as f64) as u64)
        };
        if !*full && limit >= n {
            return discard("nothing to cut off");
        }
        let root = fresh(cx, "c");
        let out = run_child(cx, c, &root, limit, Some(&to))?;
        need!(
            out.code == 10 || out.code == 11,
            "standard output takes {limit} of {n} bytes: the run ends with {} instead of an error",
            match out.code {
                0 => "success".to_string(),
                12 => "a panic".to_string(),
                k => format!("code {k}"),
            }
        );
        cx.label(if *full { "full" } else { "full after some bytes" });
        cx.nontrivial();
        Ok(())
    };
    // files that cannot be longer than some bytes, so that the write of one of them is cut short
    let cstrat = || {
        (case_with(1..3, true, 5.0), 0.0f64..1.0, proptest::collection::vec(any::<bool>(), 3)).prop_map(|(mut c, at, meta)| {
            c.x.n_out = 1 + c.x.n_out % 5;
            c.x.asc = None;
            c.banner = false;
            c.relative = false;
            c.streams[0].file = true;
            for (s, m) in c.streams.iter_mut().zip(meta) {
                s.meta = m;
            }
            (c, at)
        })
    };
    let coracle = |(c, at): &(IoCase, f64), cx: &mut Cx| -> Res {
        fn longest(p: &Path) -> (u64, bool) {
            let mut n = (0, false);
            for e in fs::read_dir(p).into_iter().flatten().flatten() {
                let m = match e.metadata() {
                    Ok(m) if m.is_dir() => longest(&e.path()),
                    Ok(m) => (m.len(), e.file_name().to_string_lossy().ends_with(".json")),
                    Err(_) => continue,
                };
                if m.0 > n.0 {
                    n = m;
                }
            }
            n
        }
        let root = fresh(cx, "c");
        let ok = run_child(cx, c, &root, 0, None)?;
        if ok.code != 0 {
            return discard("the run fails");
        }
        let (n, meta) = longest(&root);
        if n < 2 {
            return discard("nothing to cut off");
        }
        let limit = 1 + (at * (n - 1) as f64) as u64;
        let root = fresh(cx, "c");
        let out = run_child(cx, c, &root, limit, None)?;
        need!(
            out.code == 10 || out.code == 11,
            "files cannot be longer than {limit} bytes, but the longest one ({}) needs {n}: the run ends with {} instead of an error",
            if meta { "metadata" } else { "data" },
            match out.code {
                0 => "success".to_string(),
                12 => "a panic".to_string(),
                k => format!("code {k}"),
            }
        );
        cx.label(if meta { "metadata cut short" } else { "data cut short" });
        cx.nontrivial();
        Ok(())
    };
    Property {
        id: "C22",
        rule: "a run with an output, metadata file or standard output that cannot be written",
        parts: vec![
            part("files", 4_000, 60_000, strat, oracle),
            part("stdout", 800, 10_000, ostrat, ooracle),
            part("cut", 800, 10_000, cstrat, coracle),
        ],
    }
}

// =====================================================================================================================
// C23 reproducibility
// =====================================================================================================================

/// Everything a run leaves behind
struct Trace {
    init: [sim::Snap; 3],
    result: Result<(), String>,
    end: [sim::Snap; 3],
    rec: Vec<StepRec>,
    files: BTreeMap<String, Option<Vec<u8>>>,
}
fn snaps(s: &dyn Sim) -> [sim::Snap; 3] {
    sim::ALL_D.map(|d| s.vars(d))
}

/// A run on this thread. `times`: steps are made by hand, to these times
fn traced(c: &IoCase, root: &Path, times: Option<&[f64]>) -> Result<Trace, String> {
    sim::reset_thread_state();
    let mut s = c.build(root)?;
    let init = snaps(&*s);
    sim::record(2);
    let result = match times {
        None => s.run(),
        Some(ts) => ts.iter().try_for_each(|&t| {
            s.ts().t_next_output = t;
            s.step()
        }),
    };
    let result = result.map_err(|e| sim::errstr(&e));
    let rec = sim::take_record();
    sim::reset_thread_state();
    let end = snaps(&*s);
    drop(s);
    Ok(Trace { init, result, end, rec, files: tree(root) })
}

#[derive(Clone, Copy, PartialEq)]
enum Files {
    /// names and contents, but for the metadata, which name the folder
    Most,
    All,
    Ignore,
}

fn same_trace(a: &Trace, b: &Trace, files: Files, what: &str) -> Res {
    for (k, d) in ["west", "cent", "east"].iter().enumerate() {
        if let Some(f) = a.init[k].diff(&b.init[k]) {
            return fail(format!("{what}: {f} ({d}) of the initial state differs"));
        }
    }
    for (k, (x, y)) in a.rec.iter().zip(&b.rec).enumerate() {
        let same = |p: f64, q: f64| p.to_bits() == q.to_bits();
        need!(
            same(x.dt, y.dt) && same(x.t_after, y.t_after) && x.iter == y.iter,
            "{what}: step {k} leads to t = {:e} with dt = {:e} instead of t = {:e} with dt = {:e}",
            y.t_after,
            y.dt,
            x.t_after,
            x.dt
        );
        need!(
            sim::same_bits(&x.cons_after, &y.cons_after) && sim::same_bits(&x.prim_after, &y.prim_after),
            "{what}: the state after step {k} differs"
        );
        need!(sim::same_bits1(&x.c_after, &y.c_after), "{what}: the sound speeds after step {k} differ");
        need!(x.ok == y.ok, "{what}: success of step {k} differs");
    }
    need!(a.rec.len() == b.rec.len(), "{what}: {} steps instead of {}", b.rec.len(), a.rec.len());
    need!(a.result == b.result, "{what}: result {:?} instead of {:?}", b.result, a.result);
    for (k, d) in ["west", "cent", "east"].iter().enumerate() {
        if let Some(f) = a.end[k].diff(&b.end[k]) {
            return fail(format!("{what}: {f} ({d}) of the final state differs"));
        }
    }
    if files != Files::Ignore {
        need!(
            a.files.keys().eq(b.files.keys()),
            "{what}: files {:?} instead of {:?}",
            b.files.keys().collect::<Vec<_>>(),
            a.files.keys().collect::<Vec<_>>()
        );
        for (n, x) in &a.files {
            if files == Files::All || !n.ends_with("metadata.json") {
                need!(x == &b.files[n], "{what}: the contents of {n:?} differ");
            }
        }
    }
    Ok(())
}

fn pool(n: usize) -> std::rc::Rc<rayon::ThreadPool> {
    thread_local! {
        static POOLS: std::cell::RefCell<BTreeMap<usize, std::rc::Rc<rayon::ThreadPool>>> = Default::default();
    }
    POOLS.with(|p| {
        p.borrow_mut()
            .entry(n)
            .or_insert_with(|| {
                rayon::ThreadPoolBuilder::new().num_threads(n).stack_size(16 << 20).build().unwrap().into()
            })
            .clone()
    })
}

fn built(r: Result<Trace, String>) -> Res<Trace> {
    r.or_else(|e| fail(format!("valid configuration rejected: {e}")))
}

/// A line for everything that a trace shows of a simulation, but for its files
fn trace_lines(t: &Result<Trace, String>) -> Vec<String> {
    let t = match t {
        Ok(t) => t,
        Err(e) => return vec![format!("rejected: {e}")],
    };
    let hash = |parts: &[&[Vec<f64>]]| {
        let mut h = 0xcbf29ce484222325u64;
        for v in parts.iter().flat_map(|p| p.iter()).flatten() {
            // all NaNs are the same
            let b = if v.is_nan() { f64::NAN.to_bits() } else { v.to_bits() };
            h = (h ^ b).wrapping_mul(0x100000001b3).rotate_left(23);
        }
        h
    };
    let snap = |s: &[sim::Snap; 3]| {
        s.iter().map(|s| format!("{:x}", hash(&[&s.prim, &s.cons, &[s.c.clone()]]))).collect::<Vec<_>>().join(" ")
    };
    let mut out = vec![format!("initial state: {}", snap(&t.init))];
    for r in &t.rec {
        out.push(format!(
            "step {} from t = {:e} to {:e} with dt = {:e}: state {:x} success {}",
            r.iter,
            r.t_before,
            r.t_after,
            r.dt,
            hash(&[&r.prim_after, &r.cons_after, &[r.c_after.clone()]]),
            r.ok
        ));
    }
    out.push(format!("result: {:?}", t.result));
    out.push(format!("final state: {}", snap(&t.end)));
    out
}

/// The trace of a case in a process of its own
pub fn trace_child(args: &[String]) -> i32 {
    let c: IoCase = serde_json::from_str(&fs::read_to_string(&args[0]).unwrap()).unwrap();
    let root = PathBuf::from(&args[1]);
    let lines = std::panic::catch_unwind(|| trace_lines(&traced(&c, &root, None)))
        .unwrap_or_else(|_| vec!["panic".to_string()]);
    match fs::write(&args[2], lines.join("\n") + "\n") {
        Ok(()) => 0,
        Err(_) => 3,
    }
}

/// Runs a case in a child process of the given program
fn trace_in(program: &Path, cx: &Cx, c: &IoCase, root: &Path) -> Res<Vec<String>> {
    use std::process::{Command, Stdio};
    let (case, out) = (cx.dir.join("trace-case.json"), cx.dir.join("trace.txt"));
    let h = |e: std::io::Error| Stop::Harness(format!("{}: {e}", program.display()));
    fs::write(&case, serde_json::to_string(c).unwrap()).map_err(h)?;
    let _ = fs::remove_file(&out);
    let st = Command::new(program)
        .arg("trace")
        .args([&case, root, &out])
        .env("RAYON_NUM_THREADS", "4")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .map_err(h)?;
    if !st.success() {
        return Err(Stop::Harness(format!("child process ends with {st}")));
    }
    Ok(fs::read_to_string(&out).map_err(h)?.lines().map(|l| l.to_string()).collect())
}

fn same_lines(a: &[String], b: &[String], what: &str) -> Res {
    for (x, y) in a.iter().zip(b) {
        need!(x == y, "{what}: {y:?} instead of {x:?}");
    }
    need!(a.len() == b.len(), "{what}: {} instead of {} entries", b.len(), a.len());
    Ok(())
}

fn same_files(a: &BTreeMap<String, Option<Vec<u8>>>, b: &BTreeMap<String, Option<Vec<u8>>>, what: &str) -> Res {
    need!(
        a.keys().eq(b.keys()),
        "{what}: files {:?} instead of {:?}",
        b.keys().collect::<Vec<_>>(),
        a.keys().collect::<Vec<_>>()
    );
    for (n, x) in a {
        need!(x == &b[n], "{what}: the contents of {n:?} differ");
    }
    Ok(())
}

/// A simulation much like another one
fn variant(c: &IoCase, k: (u8, f64)) -> IoCase {
    let mut c = c.clone();
    let x = &mut c.x;
    let f = 0.5 + k.1;
    let dur = x.t_end - x.t0;
    match k.0 % 12 {
        0 => x.asc = if x.asc.is_none() && x.rk.has_asc() { Some([1e-4, 1e-3, 0.08]) } else { None },
        1 => x.asc = x.asc.map(|a| [a[0] * f, a[1], a[2]]),
        2 => x.asc = x.asc.map(|a| [a[0], a[1] * f, (a[2] * f).min(0.9)]),
        3 => x.gamma = 1.0 + (x.gamma - 1.0) * f.min(1.0),
        4 => {
            x.fx = match x.fx {
                Fx::Monocent(p) => Fx::Monocent(1.0 + (p - 1.0) * f.min(1.0)),
                Fx::Hll => Fx::VanLeer,
                _ => Fx::Hll,
            }
        },
        5 => std::mem::swap(&mut x.bcw, &mut x.bce),
        6 => x.cfl *= f.min(1.0),
        7 => x.xi_out += (x.xi_out - x.xi_in) * 0.01 * f,
        8 => x.cells.reverse(),
        9 => {
            x.dt_max = 0.5 * f * x.cfl * x.dx() / x.speed();
        },
        10 => x.t_end = x.t0 + dur * f,
        _ => x.n_out += 1,
    }
    c
}

/// any scheme, any size
fn wide_case(sizes: &'static [usize], steps: f64) -> impl Strategy<Value = IoCase> {
    let o = Opt {
        amp: 1.0,
        mach: 1.0,
        steps,
        asc: true,
        sizes,
        ..Opt::default()
    };
    (scn(o), case_with(0..4, true, 2.0), 0usize..13).prop_map(|(x, mut c, n)| {
        let e = x.e();
        c.x = x;
        c.x.n_out = n;
        c.x.iter_max = 300;
        for s in c.streams.iter_mut() {
            for q in s.cols.iter_mut() {
                match q {
                    Col::Prim(j) | Col::Cons(j) => *j %= e,
                    _ => {},
                }
            }
        }
        c
    })
}

fn c23_label(t: &Trace, cx: &mut Cx) {
    cx.label(if t.result.is_ok() { "success" } else { "error" });
    if !t.rec.is_empty() {
        cx.nontrivial();
    }
}

pub fn c23() -> Property {
    let threads = |(c, n): &(IoCase, Vec<usize>), cx: &mut Cx| -> Res {
        let root = fresh(cx, "c");
        let base = built(traced(c, &root, None))?;
        for &n in n {
            let root = fresh(cx, "c");
            let r = pool(n).install(|| traced(c, &root, None));
            same_trace(&base, &built(r)?, Files::All, &format!("{n} worker threads"))?;
            cx.label(format!("{n} threads"));
        }
        c23_label(&base, cx);
        Ok(())
    };
    let concurrent = |(cases, dup): &(Vec<IoCase>, bool), cx: &mut Cx| -> Res {
        let mut cases = cases.clone();
        if *dup {
            // the same simulation several times
            let c = cases[0].clone();
            cases.push(c);
        }
        for c in cases.iter_mut() {
            c.relative = false;
        }
        let mut solo = vec![];
        for c in cases.iter() {
            let root = fresh(cx, "c");
            solo.push(built(traced(c, &root, None))?);
        }
        let roots: Vec<PathBuf> = (0..cases.len()).map(|k| fresh(cx, &format!("p{k}"))).collect();
        let gate = std::sync::Barrier::new(cases.len());
        let got: Vec<Result<Trace, String>> = std::thread::scope(|s| {
            let hs: Vec<_> = cases
                .iter()
                .zip(&roots)
                .map(|(c, r)| {
                    let gate = &gate;
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(s, move || {
                            gate.wait();
                            traced(c, r, None)
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panic".into()))).collect()
        });
        for (k, g) in got.into_iter().enumerate() {
            let what = format!("simulation {k} of {} running at the same time", cases.len());
            match g {
                Ok(g) => same_trace(&solo[k], &g, Files::Most, &what)?,
                Err(e) => return fail(format!("{what}: initialisation fails: {e}")),
            }
        }
        c23_label(&solo[0], cx);
        cx.label(format!("{} simulations", cases.len()));
        Ok(())
    };
    let repeated = |(c, other): &(IoCase, IoCase), cx: &mut Cx| -> Res {
        let root = fresh(cx, "c");
        let base = built(traced(c, &root, None))?;
        // another simulation in between; what it leaves behind does not matter
        let root = fresh(cx, "o");
        let foreign = traced(other, &root, None);
        let root = fresh(cx, "c");
        let again = built(traced(c, &root, None))?;
        same_trace(&base, &again, Files::All, "the same run after another one")?;
        // on top of the files of the first run
        if c.streams.iter().all(|s| !s.clear) {
            let over = built(traced(c, &root, None))?;
            same_trace(&base, &over, Files::All, "the same run on top of its own files")?;
        }
        // without any, and with other streams
        let root = fresh(cx, "n");
        let mut bare = c.clone();
        bare.streams.clear();
        bare.banner = !c.banner;
        same_trace(&base, &built(traced(&bare, &root, None))?, Files::Ignore, "no streams")?;
        if foreign.is_ok() && other.x.ad == c.x.ad {
            let mut swapped = c.clone();
            swapped.streams = other.streams.clone();
            let root = fresh(cx, "n");
            same_trace(&base, &built(traced(&swapped, &root, None))?, Files::Ignore, "other streams")?;
            cx.label("other streams");
        }
        // by hand
        let root = fresh(cx, "n");
        let times: Vec<f64> = base.rec.iter().map(|r| r.t_next).collect();
        let hand = built(traced(&bare, &root, Some(&times)))?;
        same_trace(&base, &hand, Files::Ignore, "steps by hand")?;
        // two simulations step in turns
        sim::reset_thread_state();
        let root = fresh(cx, "n");
        let (a, b) = (bare.build(&root), bare.build(&root));
        if let (Ok(mut a), Ok(mut b)) = (a, b) {
            for (k, r) in base.rec.iter().enumerate() {
                for (w, s) in [("first", &mut a), ("second", &mut b)] {
                    s.ts().t_next_output = r.t_next;
                    // the last one may fail for the number of steps, which is not up to the recorded time solver
                    let ok = s.step().is_ok() == r.ok || k + 1 == base.rec.len();
                    need!(
                        ok && sim::same_bits(&s.cons(), &r.cons_after),
                        "two simulations making steps in turns: the state of the {w} one differs after step {k}"
                    );
                }
            }
        }
        c23_label(&base, cx);
        Ok(())
    };
    let plain = |c: &IoCase, cx: &mut Cx| -> Res {
        let root = fresh(cx, "c");
        let base = built(traced(c, &root, None))?;
        let root = fresh(cx, "c");
        let x = &c.x;
        let mut p = match sim::build_plain(&c.conf(&c.root_name(&root)), x.ad, x.fx.is_hll(), x.init()) {
            Ok(p) => p,
            Err(e) => return fail(format!("valid configuration rejected: {}", sim::errstr(&e))),
        };
        let init = snaps(&*p);
        let result = p.run().map_err(|e| sim::errstr(&e));
        let end = snaps(&*p);
        let (t, dt) = (p.ts().t, p.ts().dt);
        drop(p);
        if let Some(l) = base.rec.last() {
            need!(
                l.t_after.to_bits() == t.to_bits() && l.dt.to_bits() == dt.to_bits(),
                "corries' own solver ends at {t:e}, recorded run at {:e}",
                l.t_after
            );
        }
        let got = Trace { init, result, end, rec: base.rec.clone(), files: tree(&root) };
        same_trace(&base, &got, Files::All, "corries' own solver types")?;
        c23_label(&base, cx);
        Ok(())
    };
    // what ran before in this process does not matter
    let history = |(c, v): &(IoCase, Vec<(u8, f64)>), cx: &mut Cx| -> Res {
        let root = fresh(cx, "c");
        let exe = std::env::current_exe().map_err(|e| Stop::Harness(e.to_string()))?;
        let want = trace_in(&exe, cx, c, &root)?;
        let files = tree(&root);
        let mut w = c.clone();
        for &k in v {
            w = variant(&w, k);
            let root = fresh(cx, "o");
            let _ = traced(&w, &root, None);
        }
        let root = fresh(cx, "c");
        let t = traced(c, &root, None);
        let what = "after other simulations in the same process";
        same_lines(&want, &trace_lines(&t), what)?;
        same_files(&files, &tree(&root), what)?;
        c23_label(&built(t)?, cx);
        Ok(())
    };
    Property {
        id: "C23",
        rule: "runs with at least one step",
        parts: vec![
            part(
                "worker threads",
                700,
                12_000,
                || (wide_case(&[6, 12, 33, 36, 68, 100, 132, 260], 12.0), proptest::collection::vec(2usize..9, 1..4)),
                threads,
            ),
            part(
                "simulations at the same time",
                500,
                8_000,
                || (proptest::collection::vec(wide_case(&[6, 9, 17, 33, 36, 68, 100], 10.0), 2..5), any::<bool>()),
                concurrent,
            ),
            part("repetition", 1_200, 20_000, || (wide_case(&[6, 7, 9, 10, 13, 16, 17, 33, 36, 68, 100], 15.0), wide_case(&[6, 12], 4.0)), repeated),
            part("own-types", 600, 10_000, || wide_case(&[12], 20.0), plain),
            part(
                "fresh-process",
                1_200,
                20_000,
                || {
                    let v = proptest::collection::vec((any::<u8>(), 0.0f64..1.0), 1..4);
                    (wide_case(&[6, 7, 9, 10, 13, 16, 17, 33, 36, 68, 100], 12.0), v)
                },
                history,
            ),
        ],
    }
}

// =====================================================================================================================
// C34 without the default feature
// =====================================================================================================================

pub fn c34() -> Property {
    let strat = || {
        let o = |asc| Opt {
            amp: 1.5,
            mach: 2.0,
            steps: 15.0,
            asc,
            sizes: MEDIUM,
            ..Opt::default()
        };
        (any::<bool>(), scn(o(true)), scn(o(false)), case_with(0..3, true, 2.0), 0usize..6).prop_map(
            |(asc, a, b, mut c, n)| {
                c.x = if asc { a } else { b };
                let e = c.x.e();
                c.x.n_out = n;
                c.x.iter_max = 120;
                for s in c.streams.iter_mut() {
                    for q in s.cols.iter_mut() {
                        match q {
                            Col::Prim(j) | Col::Cons(j) => *j %= e,
                            _ => {},
                        }
                    }
                }
                c
            },
        )
    };
    let oracle = |c: &IoCase, cx: &mut Cx| -> Res {
        let root = fresh(cx, "c");
        let t = built(traced(c, &root, None))?;
        let files = tree(&root);
        let root = fresh(cx, "c");
        let exe = std::env::current_exe().map_err(|e| Stop::Harness(e.to_string()))?;
        let got = trace_in(&exe.with_file_name("verif-nv"), cx, c, &root)?;
        let what = "without the feature `validation`";
        let ok = t.rec.iter().take_while(|r| r.ok).count();
        let success = t.result.is_ok();
        let want = trace_lines(&Ok(t));
        if success {
            same_lines(&want, &got, what)?;
            same_files(&files, &tree(&root), what)?;
            cx.label("success");
        } else {
            // until the step that fails
            need!(got.len() > ok, "{what}: {} steps instead of at least {ok} ({:?})", got.len(), got.last());
            same_lines(&want[..ok + 1], &got[..ok + 1], what)?;
            cx.label("error");
        }
        cx.label(format!("{:?}", c.x.rk));
        if ok > 0 {
            cx.nontrivial();
        }
        Ok(())
    };
    Property {
        id: "C34",
        rule: "runs with at least one successful step, in a build with and one without the feature `validation`",
        parts: vec![part("features", 4_000, 60_000, strat, oracle)],
    }
}

// =====================================================================================================================
// C38 crashes
// =====================================================================================================================

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CrashCase {
    c: IoCase,
    how: End,
    /// in units of the number of steps, or of the size of the largest file
    at: f64,
}

/// Number of lines of the text that standard output shows for outputs `from..to`
fn stdout_lines(c: &IoCase, from: usize, to: usize) -> usize {
    c.streams.iter().filter(|s| !s.file).map(|s| (from..to).map(|k| s.lines(c.x.s, k == 0)).sum::<usize>()).sum()
}

/// Whether all files have what `done` outputs leave behind, and nothing else than the beginnings of what a complete
/// run of `total` outputs leaves. Outputs from `done` to `begun` may be incomplete.
fn check_crashed(
    c: &IoCase,
    full: &BTreeMap<String, Option<Vec<u8>>>,
    have: &BTreeMap<String, Option<Vec<u8>>>,
    done: usize,
    begun: usize,
    meta: bool,
) -> Res {
    let empty = vec![];
    for s in c.streams.iter().filter(|s| s.file) {
        let get = |m: &BTreeMap<String, Option<Vec<u8>>>, n: &str| m.get(n).map(|v| v.clone().unwrap_or_default());
        if s.meta {
            let (a, b) = (get(full, &s.meta_path()), get(have, &s.meta_path()));
            need!(!meta || a == b, "the metadata {:?} are incomplete", s.meta_path());
        }
        if s.scalar {
            let n = s.path(0, c.x.n_out);
            let a = get(full, &n).unwrap_or_default();
            let b = get(have, &n).unwrap_or_default();
            let ends: Vec<usize> =
                a.iter().enumerate().filter(|x| *x.1 == b'\n').map(|x| x.0 + 1).collect();
            // the header and a line per output
            let at_least = if done == 0 { 0 } else { *ends.get(done).unwrap_or(&a.len()) };
            let at_most = if begun == 0 { 0 } else { *ends.get(begun).unwrap_or(&a.len()) };
            need!(
                b.len() >= at_least,
                "{n:?} has {} of the {at_least} bytes of the {done} outputs before the crash",
                b.len()
            );
            need!(b.len() <= at_most && a.starts_with(&b), "{n:?} is not a part of the file of a complete run");
        } else {
            for k in 0.. {
                let n = s.path(k, c.x.n_out);
                let Some(a) = get(full, &n) else { break };
                let b = get(have, &n);
                if k < done {
                    need!(
                        b.as_ref() == Some(&a),
                        "{n:?} is {}, although the output was due before the crash (output {k} of {done})",
                        if b.is_some() { "incomplete" } else { "missing" }
                    );
                } else {
                    need!(k < begun || b.is_none(), "{n:?} belongs to an output after the crash");
                    need!(
                        a.starts_with(b.as_ref().unwrap_or(&empty)),
                        "{n:?} is not a part of the file of a complete run"
                    );
                }
            }
        }
    }
    Ok(())
}

pub fn c38() -> Property {
    let strat = || {
        let how = prop_oneof![3 => Just(End::Kill), 1 => Just(End::Abort), 1 => Just(End::Exit), 2 => Just(End::Panic)];
        (case_with(1..4, true, 12.0), how, 0.0f64..1.0).prop_map(|(mut c, how, at)| {
            // the order of several streams to standard output is not fixed
            let mut seen = false;
            for s in c.streams.iter_mut().filter(|s| !s.file) {
                if seen {
                    s.file = true;
                }
                seen = true;
            }
            c.x.n_out %= 110;
            CrashCase { c, how, at }
        })
    };
    // what the complete run leaves: files, standard output, times of the outputs
    let complete = |c: &IoCase, cx: &mut Cx| -> Res<(Run, PathBuf, BTreeMap<String, Option<Vec<u8>>>, String)> {
        let root = fresh(cx, "a");
        let r = run_io(c, &root)?;
        if r.rec.is_empty() {
            return discard("no steps");
        }
        let root = fresh(cx, "c");
        let out = run_child(cx, c, &root, 0, None)?;
        need!(
            out.code == if r.result.is_ok() { 0 } else { 11 },
            "the same run ends with code {} in a process of its own, and with {:?} here",
            out.code,
            r.result
        );
        let full = tree(&root);
        Ok((r, root, full, out.stdout))
    };
    let oracle = move |k: &CrashCase, cx: &mut Cx| -> Res {
        let c = &k.c;
        let (r, _, full, stdout) = complete(c, cx)?;
        let step = (k.at * r.rec.len() as f64) as usize;
        let root = fresh(cx, "c");
        let out = run_child_until(cx, c, &root, 0, None, Some((k.how, step)))?;
        let want = match k.how {
            End::Kill | End::Abort => -1,
            End::Exit => 0,
            End::Panic => 12,
        };
        if out.code != want {
            return Err(Stop::Harness(format!("the child ends with {} instead of {want}", out.code)));
        }
        let done = r.outputs.iter().filter(|o| o.kind != "err" && o.iter <= step).count();
        check_crashed(c, &full, &tree(&root), done, done, true)?;
        // standard output: everything but the later outputs
        if c.streams.iter().any(|s| !s.file) || c.banner {
            let lines = stdout.lines().count() - stdout_lines(c, done, r.outputs.len());
            let least: String = stdout.lines().take(lines).map(|l| format!("{l}\n")).collect();
            need!(
                out.stdout == least,
                "standard output has {} lines instead of {lines}: not that of the {done} outputs before the crash",
                out.stdout.lines().count()
            );
        }
        cx.label(format!("{:?}", k.how));
        cx.label(match done {
            1 => "only the initial output",
            2..=9 => "2 to 9 outputs",
            _ => "10 and more outputs",
        });
        if done > 1 {
            cx.nontrivial();
        }
        Ok(())
    };
    let woracle = move |k: &CrashCase, cx: &mut Cx| -> Res {
        let mut c = k.c.clone();
        for s in c.streams.iter_mut() {
            s.file = true;
        }
        let (r, _, full, _) = complete(&c, cx)?;
        if r.result.is_err() {
            return discard("the run fails");
        }
        let size = |n: &str| full.get(n).and_then(|v| v.as_ref()).map_or(0, |v| v.len());
        let biggest = full.values().flatten().map(|v| v.len()).max().unwrap_or(0);
        let limit = 1 + (k.at * biggest as f64) as usize;
        let meta_fits = c.streams.iter().all(|s| !s.meta || size(&s.meta_path()) <= limit);
        // the first output that does not fit
        let mut first = r.outputs.len();
        for s in &c.streams {
            if s.scalar {
                let n = s.path(0, c.x.n_out);
                let a = full[&n].clone().unwrap_or_default();
                let fit = a.iter().take(limit).filter(|b| **b == b'\n').count().saturating_sub(1);
                if a.len() > limit {
                    first = first.min(fit);
                }
            } else {
                for m in 0..first {
                    if size(&s.path(m, c.x.n_out)) > limit {
                        first = m;
                        break;
                    }
                }
            }
        }
        let root = fresh(cx, "c");
        let out = run_child_until(cx, &c, &root, -(limit as i64), None, None)?;
        let have = tree(&root);
        if !meta_fits {
            need!(out.code == -1, "a run writes more than the limit of {limit} bytes");
            check_crashed(&c, &full, &have, 0, 0, false)?;
            cx.label("in the metadata");
        } else if first == r.outputs.len() {
            need!(out.code == 0, "a run in the limit of {limit} bytes ends with {}", out.code);
            check_crashed(&c, &full, &have, first, first, true)?;
            cx.label("never");
        } else {
            need!(out.code == -1, "a run writes more than the limit of {limit} bytes");
            check_crashed(&c, &full, &have, first, first + 1, true)?;
            cx.label(if first == 0 { "in the first output" } else { "in a later output" });
            if first > 0 {
                cx.nontrivial();
            }
        }
        Ok(())
    };
    Property {
        id: "C38",
        rule: "a crash after at least two outputs; a crash in the middle of an output other than the first",
        parts: vec![
            part("between", 2_400, 40_000, strat, oracle),
            part("writing", 1_200, 20_000, strat, woracle),
        ],
    }
}

// =====================================================================================================================
// C39 writers driven by hand
// =====================================================================================================================

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Hand {
    /// the state and the time change
    Change(usize),
    Collect,
    Write,
    Metadata,
    /// run the simulation
    Run,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct HandCase {
    c: IoCase,
    bits: Vec<u64>,
    ops: Vec<Hand>,
}

pub fn c39() -> Property {
    let op = || {
        prop_oneof![
            3 => (0usize..60).prop_map(Hand::Change),
            3 => Just(Hand::Collect),
            4 => Just(Hand::Write),
            1 => Just(Hand::Metadata),
        ]
    };
    let strat = move || {
        (
            case_with(1..4, false, 3.0),
            proptest::collection::vec(any_float(), 60),
            proptest::collection::vec(op(), 1..20),
            prop_oneof![Just(0usize), Just(1), Just(2), 0usize..1000, Just(9), Just(10)],
        )
            .prop_map(|(mut c, bits, mut ops, n)| {
                c.x.n_out = n;
                ops.insert(0, Hand::Collect);
                HandCase { c, bits, ops }
            })
    };
    let rstrat = move || {
        let side = || proptest::collection::vec(op(), 0..6);
        (case_with(1..4, false, 6.0), side(), side(), any::<bool>()).prop_map(|(c, a, b, again)| {
            let mut ops = vec![Hand::Collect];
            ops.extend(a);
            ops.push(Hand::Run);
            ops.extend(b);
            if again {
                ops.push(Hand::Run);
                ops.push(Hand::Write);
            }
            ops.retain(|o| !matches!(o, Hand::Change(_)));
            HandCase { c, bits: vec![], ops }
        })
    };
    let oracle = |q: &HandCase, cx: &mut Cx| -> Res {
        let root = fresh(cx, "c");
        let c = &q.c;
        let mut sim = match c.build(&root) {
            Ok(s) => s,
            Err(e) => return fail(format!("valid configuration rejected: {e}")),
        };
        let mut kind = "init";
        let mut collected = None;
        let mut written: Vec<Shown> = vec![];
        let mut before = tree(&root);
        let mut ran: Option<bool> = None;
        for (n, o) in q.ops.iter().enumerate() {
            let at = || format!("{o:?} (operation {n})");
            let mut quiet = true;
            match *o {
                Hand::Change(k) => {
                    let get = |n: usize| f64::from_bits(q.bits[(n + 17 * k) % q.bits.len()]);
                    let (e, s) = (c.x.e(), c.x.s);
                    let prim: V2 = (0..e).map(|j| (0..s).map(|i| get(j * s + i)).collect()).collect();
                    let cons: V2 = (0..e).map(|j| (0..s).map(|i| get(7 + j * s + i)).collect()).collect();
                    let cs: Vec<f64> = (0..s).map(|i| get(31 + i)).collect();
                    sim.set_prim(D::Cent, &prim);
                    sim.set_cons(D::Cent, &cons);
                    sim.set_c(D::Cent, &cs);
                    let ts = sim.ts();
                    ts.t = get(3);
                    ts.dt = get(4);
                    ts.iter = k * 7;
                    ts.dt_kind = [DtKind::Init, DtKind::Cfl, DtKind::ErrorDump][k % 3];
                    kind = ["init", "cfl", "err"][k % 3];
                },
                Hand::Collect => {
                    collected = Some(Shown::now(&mut *sim, kind));
                    if let Err(e) = sim.collect() {
                        return fail(format!("{} fails: {}", at(), sim::errstr(&e)));
                    }
                },
                Hand::Write => {
                    if let Err(e) = sim.writer().write_output() {
                        return fail(format!("{} fails: {}", at(), sim::errstr(&e)));
                    }
                    written.push(collected.clone().unwrap());
                    quiet = false;
                },
                Hand::Metadata => {
                    if let Err(e) = sim.write_metadata() {
                        return fail(format!("{} fails: {}", at(), sim::errstr(&e)));
                    }
                },
                Hand::Run => match ran {
                    None => {
                        let (r, outs, rec) = run_built(c, &mut sim)?;
                        judge_failure(c, &r, &rec)?;
                        ran = Some(r.is_ok());
                        if let Some(l) = outs.last() {
                            kind = l.kind;
                            collected = Some(l.clone());
                        }
                        if !rec.is_empty() && r.is_ok() {
                            kind = "cfl";
                        }
                        written.extend(outs);
                        quiet = false;
                    },
                    Some(true) if (c.x.t_end - c.x.t0) / c.x.n_out as f64 > 4.0 * c.x.dt_min => {
                        // the simulation is over
                        let old = Shown::now(&mut *sim, kind);
                        if let Err(e) = sim.run() {
                            return fail(format!("a run that is over fails when it is run again: {}", sim::errstr(&e)));
                        }
                        let new = Shown::now(&mut *sim, kind);
                        need!(
                            sim::same_bits(&old.prim, &new.prim) && old.t == new.t && old.iter == new.iter,
                            "a run that is over goes on when it is run again"
                        );
                        cx.label("run again");
                    },
                    _ => {},
                },
            }
            let now = tree(&root);
            if quiet {
                need!(now == before, "{} changes {:?}", at(), changed(&before, &now));
            } else {
                for (name, old) in &before {
                    let Some(new) = now.get(name) else { return fail(format!("{} removes {name:?}", at())) };
                    let grows = c.streams.iter().any(|s| s.scalar && s.path(0, c.x.n_out) == *name);
                    need!(
                        new == old || grows && new.as_ref().unwrap().starts_with(old.as_ref().unwrap()),
                        "{} changes {name:?}, which belongs to an earlier output",
                        at()
                    );
                }
            }
            before = now;
        }
        check_files(c, &root, &written)?;
        cx.label(match written.len() {
            0 => "none written",
            1 => "one written",
            n if n > c.x.n_out + 1 => "more than configured written",
            _ => "several written",
        });
        if written.len() > 1 && q.ops.iter().filter(|o| **o == Hand::Collect).count() > 1 || ran.is_some() && q.ops.len() > 2 {
            cx.nontrivial();
        }
        Ok(())
    };
    Property {
        id: "C39",
        rule: "data collected and written at least twice each; or a run with operations by hand before or after it",
        parts: vec![
            part("by-hand", 5_000, 80_000, strat, oracle),
            part("around-a-run", 2_000, 30_000, rstrat, oracle),
        ],
    }
}

// =====================================================================================================================
// C40 restarts
// =====================================================================================================================

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RestartCase {
    x: Scn,
    /// the output to start from, in units of their number
    at: f64,
    csv: bool,
    precision: usize,
}

pub fn c40() -> Property {
    let strat = || {
        let o = Opt {
            amp: 1.5,
            mach: 3.0,
            tail: 1.0,
            jumps: 2.0,
            steps: 12.0,
            long: 12.0,
            stable: true,
            sizes: MEDIUM,
            ..Opt::default()
        };
        (scn(o), 1usize..7, 0.0f64..1.0, any::<bool>(), 15usize..25).prop_map(|(mut x, n, at, csv, precision)| {
            x.n_out = n;
            x.asc = None;
            x.iter_max = 5000;
            RestartCase { x, at, csv, precision }
        })
    };
    let oracle = |q: &RestartCase, cx: &mut Cx| -> Res {
        let mut cols: Vec<Col> = (0..q.x.e()).map(Col::Prim).collect();
        cols.push(Col::CSound);
        let cells = Stream {
            file: true,
            csv: q.csv,
            scalar: false,
            folder: "run".into(),
            slash: false,
            clear: false,
            name: "cells".into(),
            precision: q.precision,
            ghost: true,
            meta: false,
            cols,
        };
        let times = Stream { scalar: true, name: "times".into(), cols: vec![Col::T, Col::Iter], ..cells.clone() };
        let mut c = IoCase {
            x: q.x.clone(),
            streams: vec![cells, times],
            banner: false,
            relative: false,
        };
        let table = |txt: &str| -> Res<Vec<Vec<f64>>> {
            let mut out = vec![];
            for l in txt.lines().skip(1) {
                let mut row = vec![];
                for f in fields(l, q.csv) {
                    match f.parse::<f64>() {
                        Ok(v) => row.push(v),
                        Err(_) => return fail(format!("{f:?} is not a number")),
                    }
                }
                out.push(row);
            }
            Ok(out)
        };
        let outputs = |c: &IoCase, root: &Path, done: usize| -> Res<(Vec<f64>, Vec<Vec<Vec<f64>>>)> {
            let t = table(&read(&root.join(c.streams[1].path(0, c.x.n_out)))?)?;
            need!(t.len() == done, "{} rows instead of {done}", t.len());
            let mut cells = vec![];
            for k in 0..done {
                let v = table(&read(&root.join(c.streams[0].path(k, c.x.n_out)))?)?;
                need!(v.len() == c.x.s, "{} rows instead of {}", v.len(), c.x.s);
                cells.push(v);
            }
            Ok((t.iter().map(|r| r[0]).collect(), cells))
        };
        let root = fresh(cx, "a");
        let r = run_io(&c, &root)?;
        if r.result.is_err() {
            judge_failure(&c, &r.result, &r.rec)?;
            return discard("the run fails");
        }
        let n = c.x.n_out;
        let k = ((q.at * n as f64) as usize).min(n - 1);
        let (ta, a) = outputs(&c, &root, n + 1)?;
        // how rounding errors grow
        let (mut fast, mut mach, mut rho, mut energy): (f64, f64, f64, f64) = (0.0, 0.0, 0.0, 0.0);
        for s in &r.rec {
            for p in [&s.prim_before, &s.prim_after] {
                if undecided(&c.x, p) {
                    return discard("undecided boundary condition");
                }
                for i in 0..c.x.s {
                    let cs = if c.x.ad { (c.x.gamma * p[2][i] / p[0][i]).sqrt() } else { s.c_after[i] };
                    fast = fast.max(p[1][i].abs() + cs);
                    rho = rho.max(p[0][i]);
                    energy = energy.max(if c.x.ad { p[2][i] } else { 0.0 });
                }
            }
            let least = (2..c.x.s - 2).fold(f64::MAX, |m, i| m.min(s.prim_after[0][i]));
            let cold = if c.x.ad { (2..c.x.s - 2).fold(f64::MAX, |m, i| m.min(s.prim_after[2][i] / s.prim_after[0][i])) } else { f64::MAX };
            mach = mach.max(fast * fast / cold).max(rho / least);
        }
        let worst = |steps: usize| 1e-14 * (1.0 + mach) * 10.0 * 2f64.powi(steps.min(200) as i32);
        // the same problem from output k on
        c.x.t0 = ta[k];
        c.x.n_out = n - k;
        c.x.cells = a[k].iter().map(|r| [r[0], r[1], r[2]]).collect();
        if !(c.x.t0 < c.x.t_end) {
            return discard("the output is the last one");
        }
        let root = fresh(cx, "b");
        let b = run_io(&c, &root)?;
        if let Err(e) = &b.result {
            if worst(r.rec.len()) < 1e-6 {
                return fail(format!("restarted from output {k} of {n}, the run fails: {e}"));
            }
            return discard("the restarted run fails");
        }
        let (tb, b) = outputs(&c, &root, n - k + 1)?;
        let begin = r.outputs[k].iter;
        let mut judged = 0;
        for m in k..=n {
            let steps = r.outputs[m].iter - begin;
            let tol = worst(steps);
            if tol > 1e-6 {
                break;
            }
            judged = steps;
            let (t1, t2) = (ta[m], tb[m - k]);
            need!(
                (t1 - t2).abs() <= 2.0 * c.x.dt_min + 1e-13 * c.x.t_end.abs(),
                "restarted from output {k} of {n}, output {m} is at {t2:e} instead of {t1:e}"
            );
            if (t1 - t2).abs() > 1e-12 * c.x.t_end.abs().max(c.x.t_end - q.x.t0) {
                break;
            }
            for i in 2..c.x.s - 2 {
                let (u, v) = (&a[m][i], &b[m - k][i]);
                for j in 0..u.len() {
                    let size = match j {
                        0 => rho,
                        2 if c.x.ad => energy.max(rho * fast * fast),
                        _ => fast * (1.0 + rho / u[0]),
                    };
                    need!(
                        (u[j] - v[j]).abs() <= tol * size,
                        "restarted from output {k} of {n}, column {j} in cell {i} of output {m} ({steps} steps later) is {:e} instead of {:e}",
                        v[j],
                        u[j]
                    );
                }
            }
        }
        cx.label(if k == 0 { "from the initial output" } else { "from a later output" });
        cx.label(format!("{:?}", c.x.rk));
        cx.label(c.x.fx.name());
        if judged >= 2 {
            cx.nontrivial();
        }
        Ok(())
    };
    Property {
        id: "C40",
        rule: "at least two steps after the restart are compared",
        parts: vec![part("restart", 6_000, 120_000, strat, oracle)],
    }
}
