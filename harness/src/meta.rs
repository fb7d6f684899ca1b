//! Determinism under threading and history (C10) and metamorphic invariances (C12).
use crate::boost::*;
use crate::engine::*;
use crate::gen::*;
use crate::oracle::*;
use common::data_processor::create_dataset_with_sorted_features;
use multi_target_decision_tree::decision_trees::*;
use multi_target_decision_tree::grad_boost_decision_trees::grad_boost_leaf_output::*;
use multi_target_decision_tree::grad_boost_decision_trees::*;
use multi_target_decision_tree::leaf::*;
use multi_target_decision_tree::node::TreeNode;
use multi_target_decision_tree::scorer::{classification, regression};
use multi_target_grad_boost::boosting_ensemble::boosting_types::*;
use multi_target_grad_boost::boosting_ensemble::GradientBoostedEnsemble;
use std::sync::OnceLock;

// ---------------------------------------------------------------- models as plain data

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Tree,
    GradReg,
    GradMulti,
    Amg,
    Presorted,
    BoostReg,
    BoostMulti,
    BoostAmg,
}
pub const KINDS: [Kind; 8] = [Kind::Tree, Kind::BoostReg, Kind::BoostMulti, Kind::BoostAmg, Kind::GradReg, Kind::GradMulti, Kind::Amg, Kind::Presorted];
impl Kind {
    pub fn class(self) -> bool {
        matches!(self, Kind::BoostMulti | Kind::BoostAmg)
    }
    pub fn boost(self) -> bool {
        matches!(self, Kind::BoostReg | Kind::BoostMulti | Kind::BoostAmg)
    }
    pub fn name(self) -> &'static str {
        match self {
            Kind::Tree => "regression tree",
            Kind::GradReg => "gradient-boosting tree (regression)",
            Kind::GradMulti => "gradient-boosting tree (multi-class)",
            Kind::Amg => "approximate gradient-boosting tree",
            Kind::Presorted => "presorted tree",
            Kind::BoostReg => "regression boost",
            Kind::BoostMulti => "multi-class boost",
            Kind::BoostAmg => "AMG boost",
        }
    }
}

#[derive(Clone, Debug)]
pub struct Job {
    pub kind: Kind,
    pub levels: u32,
    pub iters: u32,
    pub lr: f64,
}

fn dump<L: Leaf>(n: &TreeNode<L>, ncols: usize, leaf: &dyn Fn(&L, &mut Vec<u64>), out: &mut Vec<u64>) -> Res {
    let fl = Flat::new(n, ncols)?;
    for (i, nd) in fl.nodes.iter().enumerate() {
        if nd.leaf {
            out.push(u64::MAX);
            leaf(fl.leaves[i].unwrap(), out);
        } else {
            out.push(nd.col as u64);
            out.push(nd.val.to_bits());
        }
    }
    Ok(())
}
fn dump_reg(l: &RegressionLeaf, out: &mut Vec<u64>) {
    if let Some(d) = &l.data {
        for v in d.feature_rows.iter().chain(&d.labels).chain(&d.feature_columns) {
            out.push(v.len() as u64);
            out.extend(bits(v));
        }
    }
}
fn dump_grad(l: &GradBoostLeaf, out: &mut Vec<u64>) {
    out.extend(l.leaf_output.as_ref().map(|o| bits(o)).unwrap_or_default());
}
fn dump_amg(l: &AMGBoostLeaf, out: &mut Vec<u64>) {
    out.push(l.max_value.map_or(1, |v| v.to_bits()));
    out.push(l.class.map_or(u64::MAX, |c| c as u64));
}

/// Everything observable of the trained model, as numbers.
pub fn train_dump(d: &Data, j: &Job, mt: bool) -> Result<Vec<u64>, String> {
    let cfg = config(d.k, j.levels, mt);
    let nc = d.ncols();
    let mut out = vec![];
    fn ens<E: Ens>(m: E, nc: usize, leaf: &dyn Fn(&E::L, &mut Vec<u64>), out: &mut Vec<u64>) -> Res {
        out.extend(bits(m.guess()));
        for t in m.trees() {
            out.push(u64::MAX - 1);
            dump(t, nc, leaf, out)?;
        }
        Ok(())
    }
    let reg = || LeafOutputCalculator::new(LeafOutputType::Regression);
    let mul = || LeafOutputCalculator::new(LeafOutputType::MultiClassClassification);
    match j.kind {
        Kind::Tree => dump(&RegressionMultiTargetDecisionTree::new(d.mt(), cfg).root, nc, &dump_reg, &mut out)?,
        Kind::GradReg => dump(&GradBoostMultiTargetDecisionTree::new(d.mt(), cfg, reg()).root, nc, &dump_grad, &mut out)?,
        Kind::GradMulti => dump(&GradBoostMultiTargetDecisionTree::new(d.mt(), cfg, mul()).root, nc, &dump_grad, &mut out)?,
        Kind::Amg => dump(&AMGBoostTree::new(d.mt(), cfg, mul()).root, nc, &dump_amg, &mut out)?,
        Kind::Presorted => {
            let data = d.mt();
            let t = RegressionMultiTargetDecisionTreeNewPartition::new(create_dataset_with_sorted_features(&data), cfg).root;
            let leaf = |l: &RegressionLeafNewPartition, out: &mut Vec<u64>| {
                if let Some(x) = &l.data {
                    for v in &x.labels {
                        out.extend(bits(v));
                    }
                    for c in &x.sorted_feature_columns {
                        out.push(c.len() as u64);
                        for (v, i) in c {
                            out.push(v.to_bits());
                            out.push(*i as u64);
                        }
                    }
                }
            };
            dump(&t, nc, &leaf, &mut out)?
        }
        Kind::BoostReg => ens(RegressionBoostModel::train(d.mt(), cfg, j.iters, j.lr), nc, &dump_grad, &mut out)?,
        Kind::BoostMulti => ens(MultiClassBoostModel::train(d.mt(), cfg, j.iters, j.lr), nc, &dump_grad, &mut out)?,
        Kind::BoostAmg => ens(AMGBoostModel::train(d.mt(), cfg, j.iters, j.lr), nc, &dump_amg, &mut out)?,
    }
    Ok(out)
}

/// Predictions of a model for rows, as the user obtains them; numbers for regression, one-hot for classes.
pub fn train_predict(d: &Data, j: &Job, mt: bool, q: &[Vec<f64>]) -> Result<Vec<Vec<f64>>, String> {
    let cfg = config(d.k, j.levels, mt);
    let nc = d.ncols();
    let reg = || LeafOutputCalculator::new(LeafOutputType::Regression);
    let mul = || LeafOutputCalculator::new(LeafOutputType::MultiClassClassification);
    Ok(match j.kind {
        Kind::Tree => {
            let t = RegressionMultiTargetDecisionTree::new(d.mt(), cfg).root;
            let fl = Flat::new(&t, nc)?;
            q.iter()
                .map(|r| {
                    let l = &fl.leaf(r).data.as_ref().unwrap().labels;
                    mean_labels(l, &(0..l.len()).collect::<Vec<_>>())
                })
                .collect()
        }
        Kind::Presorted => {
            let data = d.mt();
            let t = RegressionMultiTargetDecisionTreeNewPartition::new(create_dataset_with_sorted_features(&data), cfg).root;
            let fl = Flat::new(&t, nc)?;
            q.iter()
                .map(|r| {
                    let l = &fl.leaf(r).data.as_ref().unwrap().labels;
                    let l: Vec<Vec<f64>> = l.iter().map(|x| (*x).clone()).collect();
                    mean_labels(&l, &(0..l.len()).collect::<Vec<_>>())
                })
                .collect()
        }
        Kind::GradReg | Kind::GradMulti => {
            let t = GradBoostMultiTargetDecisionTree::new(d.mt(), cfg, if j.kind == Kind::GradReg { reg() } else { mul() }).root;
            let fl = Flat::new(&t, nc)?;
            q.iter().map(|r| fl.leaf(r).leaf_output.clone().unwrap()).collect()
        }
        Kind::Amg => {
            let t = AMGBoostTree::new(d.mt(), cfg, mul()).root;
            let fl = Flat::new(&t, nc)?;
            q.iter().map(|r| vec![fl.leaf(r).max_value.unwrap(), fl.leaf(r).class.unwrap() as f64]).collect()
        }
        Kind::BoostReg => {
            let m = RegressionBoostModel::train(d.mt(), cfg, j.iters, j.lr);
            q.iter().map(|r| m.predict(r)).collect()
        }
        Kind::BoostMulti => {
            let m = MultiClassBoostModel::train(d.mt(), cfg, j.iters, j.lr);
            q.iter().map(|r| m.predict(r)).collect()
        }
        Kind::BoostAmg => {
            let m = AMGBoostModel::train(d.mt(), cfg, j.iters, j.lr);
            q.iter().map(|r| m.predict(r)).collect()
        }
    })
}

fn gen_job(src: &mut Src, kind: Kind, d: &Data) -> Job {
    let levels = match src.weighted(&[1, 3, 3, 4, 4, 2]) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 3,
        4 => 4 + src.draw(10) as u32,
        _ => no_limit(src),
    };
    let levels = if d.class == "huge" { levels.min(3) } else { levels };
    let levels = if d.class == "bushy" { no_limit(src) } else { levels };
    let levels = if d.class == "deep" && src.chance(1, 2) { 100_000 } else { levels };
    let top = (400_000 / (d.n() * d.ncols() * d.k + 200)).clamp(1, 12) as u64;
    let iters = if kind.boost() { 1 + src.draw(top) as u32 } else { 0 };
    let lr = gen_lr(src);
    Job { kind, levels, iters, lr }
}

fn diff(a: &[u64], b: &[u64]) -> String {
    let p = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("dumps of {} and {} numbers differ first at position {}: {:?} and {:?}", a.len(), b.len(), p, a.get(p).map(|x| f64::from_bits(*x)), b.get(p).map(|x| f64::from_bits(*x)))
}

// ---------------------------------------------------------------- C10

pub fn pools() -> &'static Vec<rayon::ThreadPool> {
    static P: OnceLock<Vec<rayon::ThreadPool>> = OnceLock::new();
    P.get_or_init(|| [1usize, 2, 3, 8, 5, 16].iter().map(|&n| rayon::ThreadPoolBuilder::new().num_threads(n).stack_size(128 << 20).build().unwrap()).collect())
}

pub fn c10(src: &mut Src, ctx: &mut Ctx) -> Res {
    let kind = KINDS[src.weighted(&[5, 4, 4, 4, 2, 2, 2, 1])];
    let mode = if kind.class() {
        LabelMode::OneHot
    } else {
        match src.draw(4) {
            0 => LabelMode::OneHot,
            1 => LabelMode::Exact,
            _ => LabelMode::Regression,
        }
    };
    let mut o = Opts::new(mode);
    o.sizes = if kind.boost() { [150, 400, 250, 30, 20, 15, 2] } else { [100, 300, 300, 110, 40, 20, 4] };
    o.deep = if kind.boost() { 0 } else { 3 };
    o.bushy = if kind.boost() { 0 } else { 100 };
    let mut d = gen_data(src, &o);
    // repeated columns: many equally good questions, the choice among them must not vary
    if src.chance(1, 3) {
        let p = src.perm(d.ncols());
        let extra: Vec<usize> = p.into_iter().take(1 + src.draw(3) as usize).collect();
        // mirrored columns: equally good questions whose losses are rounded differently
        let mirror = src.chance(1, 2);
        for r in d.rows.iter_mut() {
            for &c in &extra {
                let v = r[c];
                r.push(if mirror { -v } else { v });
            }
        }
        ctx.label(if mirror { "mirrored-columns" } else { "duplicate-columns" });
    }
    let job = gen_job(src, kind, &d);
    ctx.describe(|| format!("{:?} {}", job, d.show()));
    ctx.label(d.class);
    ctx.label(kind.name());
    let reference = train_dump(&d, &job, false)?;
    ctx.nontrivial = reference.len() > 12;
    let again = train_dump(&d, &job, false)?;
    ensure!(reference == again, "{}: training twice on equal data differs: {}", kind.name(), diff(&reference, &again));
    let pool = src.draw(6) as usize;
    let threads = [1, 2, 3, 8, 5, 16][pool];
    ctx.label(["threads-1", "threads-2", "threads-3", "threads-8", "threads-5", "threads-16"][pool]);
    for rep in 0..2 {
        let mt = pools()[pool].install(|| train_dump(&d, &job, true))?;
        ensure!(reference == mt, "{}: training with multi-threading on {} threads (attempt {}) differs from single-threaded training: {}", kind.name(), threads, rep, diff(&reference, &mt));
    }
    match src.draw(3) {
        0 => {}
        1 => {
            // other trainings in between, sharing some of the data
            ctx.label("interleaved-history");
            let mut e = d.clone();
            let okind = if kind.class() || mode == LabelMode::OneHot { KINDS[src.draw(8) as usize] } else { [Kind::Tree, Kind::BoostReg, Kind::GradReg, Kind::Presorted][src.draw(4) as usize] };
            match src.draw(4) {
                0 => e.labels.reverse(),
                1 => e.rows.reverse(),
                2 => {
                    let h = (e.n() + 1) / 2;
                    e.rows.truncate(h);
                    e.labels.truncate(h);
                }
                _ => {
                    let c = src.draw(e.ncols() as u64) as usize;
                    for r in e.rows.iter_mut() {
                        r[c] = -r[c];
                    }
                }
            }
            let oj = gen_job(src, okind, &e);
            let omt = src.chance(1, 2);
            let before = pools()[pool].install(|| train_dump(&e, &oj, omt))?;
            let mt = src.chance(1, 2);
            let back = pools()[pool].install(|| train_dump(&d, &job, mt))?;
            ensure!(reference == back, "{}: after training another model ({:?}) the same training differs: {}", kind.name(), oj, diff(&reference, &back));
            let after = train_dump(&e, &oj, !omt)?;
            ensure!(before == after, "{}: the other model differs when trained again: {}", okind.name(), diff(&before, &after));
        }
        _ => {
            // concurrent trainings on a shared pool and on separate threads
            ctx.label("concurrent");
            let shared = src.chance(1, 2);
            let mut e = d.clone();
            e.labels.reverse();
            let eref = train_dump(&e, &job, false)?;
            let outs: Vec<std::thread::Result<Result<Vec<u64>, String>>> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..4usize)
                    .map(|i| {
                        let (d, e, job) = (&d, &e, &job);
                        std::thread::Builder::new()
                            .stack_size(256 << 20)
                            .spawn_scoped(s, move || {
                                let x = if i % 2 == 0 { d } else { e };
                                let f = || train_dump(x, job, i != 3);
                                if shared {
                                    pools()[pool].install(f)
                                } else {
                                    f()
                                }
                            })
                            .unwrap()
                    })
                    .collect();
                hs.into_iter().map(|h| h.join()).collect()
            });
            for (i, o) in outs.into_iter().enumerate() {
                let got = match o {
                    Ok(r) => r?,
                    Err(_) => return Err(format!("panic in a concurrent training: {}", last_panic())),
                };
                let want = if i % 2 == 0 { &reference } else { &eref };
                ensure!(*want == got, "{}: training concurrently with other trainings differs from training alone: {}", kind.name(), diff(want, &got));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C12

/// A random strictly increasing map defined on the given values.
fn monotone(src: &mut Src, vals: &[f64]) -> (Vec<(f64, f64)>, &'static str) {
    let mut v: Vec<f64> = vals.to_vec();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.dedup(); // 0.0 == -0.0 count as one value
    let m = v.len();
    let fixed: Option<Vec<f64>> = match src.draw(12) {
        6 => Some(v.iter().map(|x| x * 2f64.powi(900)).collect()),
        7 => Some(v.iter().map(|x| x * 2f64.powi(-900)).collect()),
        8 => Some((0..m).map(|i| (i as f64 - m as f64 / 2.0).floor() * 5e-324).collect()),
        9 => Some((0..m).map(|i| f64::MAX * (i as f64 / m as f64 * 2.0 - 1.0)).collect()),
        10 => Some((0..m).map(|i| if i < m / 2 { ulps(-1.0, i as i64) } else { ulps(1e9, i as i64) }).collect()),
        0 => Some((0..m).map(|i| i as f64).collect()),
        1 => Some(v.iter().map(|x| x * 2.0 - 0.0).collect()),
        2 => Some(v.iter().map(|x| x / 8.0).collect()),
        3 => Some((0..m).map(|i| -1e6 + i as f64 * 0.37).collect()),
        4 => Some((0..m).map(|i| ulps(3.0, i as i64)).collect()),
        _ => None,
    };
    // (two values of the column may coincide after scaling: then some other map is used)
    let name = if fixed.is_some() { "map-fixed" } else { "map-random-gaps" };
    let ok = |w: &Vec<f64>| w.iter().all(|x| x.is_finite()) && w.windows(2).all(|p| p[0] < p[1]);
    let w = match fixed {
        Some(w) if ok(&w) => w,
        Some(_) => (0..m).map(|i| i as f64 - 7.5).collect(),
        None => {
            let mut x = src.zig(2000) as f64;
            (0..m)
                .map(|_| {
                    x += match src.draw(3) {
                        0 => 1.0,
                        1 => 0.001,
                        _ => (1 + src.draw(1 << 20)) as f64,
                    };
                    x
                })
                .collect()
        }
    };
    (v.into_iter().zip(w).collect(), name)
}

fn apply(map: &[(f64, f64)], x: f64) -> f64 {
    let i = map.partition_point(|p| p.0 < x);
    map[i].1
}

fn first_diff(a: &[Vec<f64>], b: &[Vec<f64>]) -> Option<usize> {
    (0..a.len()).find(|&i| bits(&a[i]) != bits(&b[i]))
}

pub fn c12(src: &mut Src, ctx: &mut Ctx) -> Res {
    let rel = src.weighted(&[4, 3, 3, 2, 2]);
    let kind = match rel {
        0 | 1 => KINDS[src.weighted(&[4, 4, 4, 4, 1, 1, 1, 2])],
        2 => [Kind::Tree, Kind::BoostReg, Kind::GradReg, Kind::Presorted][src.weighted(&[3, 6, 2, 2])],
        _ => [Kind::Tree, Kind::Presorted, Kind::GradReg][src.weighted(&[4, 2, 2])],
    };
    let mode = if kind.class() || kind == Kind::GradMulti || kind == Kind::Amg {
        LabelMode::OneHot
    } else if rel >= 3 {
        if src.chance(1, 3) { LabelMode::OneHot } else { LabelMode::Exact }
    } else {
        match src.draw(4) {
            0 => LabelMode::OneHot,
            1 => LabelMode::Exact,
            _ => LabelMode::Regression,
        }
    };
    let mut o = Opts::new(mode);
    o.sizes = if kind.boost() { [150, 500, 200, 10, 15, 15, 1] } else { [150, 400, 300, 40, 30, 20, 3] };
    o.wide_labels = rel != 2;
    let d = gen_data(src, &o);
    let job = gen_job(src, kind, &d);
    let mt = src.chance(1, 4);
    ctx.label(d.class);
    ctx.label(kind.name());
    ctx.describe(|| format!("{:?} multi-threading {} {}", job, mt, d.show()));
    let nc = d.ncols();
    match rel {
        0 => {
            // query rows hold values between and beyond the training values as well
            let q = gen_queries(src, &d, 12);
            let base = train_predict(&d, &job, mt, &q)?;
            let mut e = d.clone();
            let mut q2 = q.clone();
            for c in 0..nc {
                if nc > 1 && src.chance(1, 3) {
                    continue;
                }
                let vals: Vec<f64> = d.rows.iter().chain(&q).map(|r| r[c]).collect();
                let (map, name) = monotone(src, &vals);
                ctx.label(name);
                ctx.describe(|| format!("column {} mapped by {}", c, clip(&format!("{:?}", map), 300)));
                for r in e.rows.iter_mut().chain(q2.iter_mut()) {
                    r[c] = apply(&map, r[c]);
                }
            }
            let got = train_predict(&e, &job, mt, &q2)?;
            ctx.label("monotone-map");
            ctx.nontrivial = multiset(base.iter()).windows(2).any(|w| w[0] != w[1]);
            if let Some(i) = first_diff(&base, &got) {
                return Err(format!("{}: row {:?} predicted {:?}, but {:?} after strictly increasing maps of the features", kind.name(), q[i], base[i], got[i]));
            }
        }
        1 => {
            let q = gen_queries(src, &d, 12);
            let base = train_predict(&d, &job, mt, &q)?;
            let mut e = d.clone();
            let mut q2 = q.clone();
            let add = if src.chance(1, 60) { 4 + src.draw(300) as usize } else { 1 + src.draw(3) as usize };
            for _ in 0..add {
                if src.draw(2) == 0 {
                    let v = src.zig(9) as f64;
                    for r in e.rows.iter_mut() {
                        r.push(v);
                    }
                    for r in q2.iter_mut() {
                        r.push(v + src.zig(3) as f64);
                    }
                    ctx.label("constant-column");
                } else {
                    let c = src.draw(nc as u64) as usize;
                    for r in e.rows.iter_mut().chain(q2.iter_mut()) {
                        let v = r[c];
                        r.push(v);
                    }
                    ctx.label("duplicate-column");
                }
            }
            ctx.nontrivial = multiset(base.iter()).windows(2).any(|w| w[0] != w[1]);
            let got = train_predict(&e, &job, mt, &q2)?;
            if let Some(i) = first_diff(&base, &got) {
                return Err(format!("{}: row {:?} predicted {:?}, but {:?} after adding {} constant or duplicate columns", kind.name(), q[i], base[i], got[i], add));
            }
        }
        2 => {
            let q = gen_queries(src, &d, 12);
            let base = train_predict(&d, &job, mt, &q)?;
            let p = if src.chance(1, 4) { src.zig(300) } else { src.zig(40) } as i32;
            let sign = if src.draw(2) == 1 { -1.0 } else { 1.0 };
            let f = 2f64.powi(p) * sign;
            let mut e = d.clone();
            for v in e.labels.iter_mut().flatten() {
                *v *= f;
            }
            ctx.label("label-scale");
            ctx.describe(|| format!("labels times {}", f));
            ctx.nontrivial = f != 1.0 && multiset(base.iter()).windows(2).any(|w| w[0] != w[1]);
            let got = train_predict(&e, &job, mt, &q)?;
            for i in 0..q.len() {
                let ok = base[i].len() == got[i].len() && base[i].iter().zip(&got[i]).all(|(x, y)| x * f == *y);
                ensure!(ok, "{}: row {:?} predicted {:?}, but {:?} when the labels are multiplied by {}", kind.name(), q[i], base[i], got[i], f);
            }
        }
        _ => {
            // row permutation / doubling: exact label sums
            let mut e = d.clone();
            let what;
            if rel == 3 {
                let p = src.perm(d.n());
                e.rows = p.iter().map(|&i| d.rows[i].clone()).collect();
                e.labels = p.iter().map(|&i| d.labels[i].clone()).collect();
                what = "permuting the training rows";
                ctx.label("row-permutation");
            } else {
                let times = if d.n() > 1000 { 2 } else { [2usize, 4][src.draw(2) as usize] };
                let block = src.draw(2) == 0;
                e.rows = (0..d.n() * times).map(|i| d.rows[if block { i / times } else { i % d.n() }].clone()).collect();
                e.labels = (0..d.n() * times).map(|i| d.labels[if block { i / times } else { i % d.n() }].clone()).collect();
                what = "repeating every training row";
                ctx.label("row-repetition");
            }
            let cfg = config(d.k, job.levels, mt);
            let lo = LeafOutputCalculator::new(LeafOutputType::Regression);
            match kind {
                Kind::Tree => {
                    let a = Box::new(RegressionMultiTargetDecisionTree::new(d.mt(), cfg).root);
                    let b = Box::new(RegressionMultiTargetDecisionTree::new(e.mt(), config(d.k, job.levels, mt)).root);
                    let (fa, fb) = (Flat::new(&a, nc)?, Flat::new(&b, nc)?);
                    ctx.nontrivial = fa.internal() > 0;
                    let eq = |l: &RegressionLeaf, m: &RegressionLeaf| -> Res {
                        let (x, y) = (l.data.as_ref().unwrap(), m.data.as_ref().unwrap());
                        let mut lx = multiset(x.labels.iter());
                        let mut ly = multiset(y.labels.iter());
                        let rep = ly.len() / lx.len().max(1);
                        lx = lx.into_iter().flat_map(|v| std::iter::repeat(v).take(rep)).collect();
                        ly.sort();
                        if lx == ly { Ok(()) } else { Err("leaf labels differ".into()) }
                    };
                    same_tree(&fa, &fb, &eq).map_err(|x| format!("tree changes by {}: {}", what, x))?;
                    // scoring is quadratic in the leaf size
                    let m = d.n().min(if d.n() > 2000 { 20 } else { 2000 });
                    let set = make_mt(&d.rows[..m], &d.labels[..m]);
                    let ma = regression::calculate_overall_mean_squared_error(&set, &a);
                    let mb = regression::calculate_overall_mean_squared_error(&set, &b);
                    ensure!((ma - mb).abs() <= 1e-9 * ma.max(mb) + 1e-20 * d.labels.iter().flatten().fold(0.0f64, |a, b| a.max(b * b)), "training error changes from {:e} to {:e} by {}", ma, mb, what);
                    if mode == LabelMode::OneHot {
                        for r in &d.rows[..m] {
                            let (x, y) = (classification::predict_class(r, &a), classification::predict_class(r, &b));
                            ensure!(x == y, "row {:?} classified {:?}, and {:?} after {}", r, x, y, what);
                        }
                    }
                }
                Kind::Presorted => {
                    let (da, db) = (d.mt(), e.mt());
                    let a = RegressionMultiTargetDecisionTreeNewPartition::new(create_dataset_with_sorted_features(&da), cfg).root;
                    let b = RegressionMultiTargetDecisionTreeNewPartition::new(create_dataset_with_sorted_features(&db), config(d.k, job.levels, mt)).root;
                    let (fa, fb) = (Flat::new(&a, nc)?, Flat::new(&b, nc)?);
                    ctx.nontrivial = fa.internal() > 0;
                    let eq = |l: &RegressionLeafNewPartition, m: &RegressionLeafNewPartition| -> Res {
                        let (x, y) = (l.data.as_ref().unwrap(), m.data.as_ref().unwrap());
                        let mut lx = multiset(x.labels.iter().copied());
                        let ly = multiset(y.labels.iter().copied());
                        let rep = ly.len() / lx.len().max(1);
                        lx = lx.into_iter().flat_map(|v| std::iter::repeat(v).take(rep)).collect();
                        if lx == ly { Ok(()) } else { Err("leaf labels differ".into()) }
                    };
                    same_tree(&fa, &fb, &eq).map_err(|x| format!("presorted tree changes by {}: {}", what, x))?;
                }
                _ => {
                    let a = GradBoostMultiTargetDecisionTree::new(d.mt(), cfg, lo).root;
                    let b = GradBoostMultiTargetDecisionTree::new(e.mt(), config(d.k, job.levels, mt), lo).root;
                    let (fa, fb) = (Flat::new(&a, nc)?, Flat::new(&b, nc)?);
                    ctx.nontrivial = fa.internal() > 0;
                    let eq = |l: &GradBoostLeaf, m: &GradBoostLeaf| -> Res {
                        let (x, y) = (l.leaf_output.as_ref().unwrap(), m.leaf_output.as_ref().unwrap());
                        if x == y { Ok(()) } else { Err(format!("leaf outputs {:?} and {:?}", x, y)) }
                    };
                    same_tree(&fa, &fb, &eq).map_err(|x| format!("gradient-boosting tree changes by {}: {}", what, x))?;
                }
            }
        }
    }
    Ok(())
}
