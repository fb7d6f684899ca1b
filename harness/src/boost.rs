//! Properties of the three boosted ensembles (C13-C17, C20).
use crate::engine::*;
use crate::gen::*;
use crate::oracle::*;
use crate::trees::{gen_rows_for, gen_tree, hand_thresholds};
use common::datasets::MultiTargetDataSet;
use multi_target_decision_tree::leaf::*;
use multi_target_decision_tree::node::TreeNode;
use multi_target_grad_boost::boosting_ensemble::boosting_types::*;
use multi_target_grad_boost::boosting_ensemble::GradientBoostedEnsemble;

pub trait Ens: GradientBoostedEnsemble {
    type L: Leaf;
    const NAME: &'static str;
    const CLASS: bool;
    fn trees(&self) -> &Vec<Box<TreeNode<Self::L>>>;
    fn guess(&self) -> &Vec<f64>;
    fn make(trees: Vec<Box<TreeNode<Self::L>>>, guess: Vec<f64>, lr: f64) -> Self;
    /// contribution of a leaf to every score, before the learning rate
    fn contrib(l: &Self::L, k: usize) -> Result<Vec<f64>, String>;
    fn gen_leaf(src: &mut Src, k: usize) -> Self::L;
    fn dump_leaf(l: &Self::L) -> Vec<u64>;
    /// class and value kept by an approximate leaf
    fn kept(_l: &Self::L) -> Option<(usize, f64)> {
        None
    }
}

fn grad_contrib(l: &GradBoostLeaf, k: usize) -> Result<Vec<f64>, String> {
    match &l.leaf_output {
        Some(o) if o.len() == k => Ok(o.clone()),
        Some(o) => Err(format!("a leaf output has {} entries, expected {}", o.len(), k)),
        None => Err("a boosted tree leaf has no output".into()),
    }
}
fn gen_grad_leaf(src: &mut Src, k: usize) -> GradBoostLeaf {
    GradBoostLeaf { leaf_output: Some((0..k).map(|_| src.zig(33) as f64 / 8.0).collect()) }
}
fn dump_grad(l: &GradBoostLeaf) -> Vec<u64> {
    l.leaf_output.as_ref().map(|o| bits(o)).unwrap_or_default()
}

macro_rules! grad_ens {
    ($t:ty, $name:expr, $class:expr) => {
        impl Ens for $t {
            type L = GradBoostLeaf;
            const NAME: &'static str = $name;
            const CLASS: bool = $class;
            fn trees(&self) -> &Vec<Box<TreeNode<GradBoostLeaf>>> {
                &self.trees
            }
            fn guess(&self) -> &Vec<f64> {
                &self.initial_guess
            }
            fn make(trees: Vec<Box<TreeNode<GradBoostLeaf>>>, initial_guess: Vec<f64>, learning_rate: f64) -> Self {
                Self { trees, initial_guess, learning_rate }
            }
            fn contrib(l: &GradBoostLeaf, k: usize) -> Result<Vec<f64>, String> {
                grad_contrib(l, k)
            }
            fn gen_leaf(src: &mut Src, k: usize) -> GradBoostLeaf {
                gen_grad_leaf(src, k)
            }
            fn dump_leaf(l: &GradBoostLeaf) -> Vec<u64> {
                dump_grad(l)
            }
        }
    };
}
grad_ens!(RegressionBoostModel, "regression boost", false);
grad_ens!(MultiClassBoostModel, "multi-class boost", true);

impl Ens for AMGBoostModel {
    type L = AMGBoostLeaf;
    const NAME: &'static str = "AMG boost";
    const CLASS: bool = true;
    fn trees(&self) -> &Vec<Box<TreeNode<AMGBoostLeaf>>> {
        &self.trees
    }
    fn guess(&self) -> &Vec<f64> {
        &self.initial_guess
    }
    fn make(trees: Vec<Box<TreeNode<AMGBoostLeaf>>>, initial_guess: Vec<f64>, learning_rate: f64) -> Self {
        Self { trees, initial_guess, learning_rate }
    }
    fn contrib(l: &AMGBoostLeaf, k: usize) -> Result<Vec<f64>, String> {
        match (l.max_value, l.class) {
            (Some(m), Some(c)) if c < k => {
                let mut v = vec![-m / (k as f64 - 1.0); k];
                v[c] = m;
                Ok(v)
            }
            _ => Err(format!("an AMG leaf holds value {:?} for class {:?} of {}", l.max_value, l.class, k)),
        }
    }
    fn gen_leaf(src: &mut Src, k: usize) -> AMGBoostLeaf {
        // (k-1)/8 units: both the value and value/(k-1) are exact
        let v = src.zig(33) as f64 / 8.0 * (k as f64 - 1.0);
        AMGBoostLeaf { max_value: Some(v), class: Some(src.draw(k as u64) as usize) }
    }
    fn kept(l: &AMGBoostLeaf) -> Option<(usize, f64)> {
        l.class.zip(l.max_value)
    }
    fn dump_leaf(l: &AMGBoostLeaf) -> Vec<u64> {
        vec![l.max_value.map_or(1, |v| v.to_bits()), l.class.map_or(u64::MAX, |c| c as u64)]
    }
}

pub fn same_trees<E: Ens>(a: &[Box<TreeNode<E::L>>], b: &[Box<TreeNode<E::L>>], ncols: usize, what: &str) -> Res {
    for (t, (x, y)) in a.iter().zip(b).enumerate() {
        let fx = Flat::new(x, ncols)?;
        let fy = Flat::new(y, ncols)?;
        same_tree(&fx, &fy, &|l: &E::L, m: &E::L| {
            if E::dump_leaf(l) == E::dump_leaf(m) {
                Ok(())
            } else {
                Err("leaf values differ".into())
            }
        })
        .map_err(|e| format!("{}: {}, tree {}: {}", E::NAME, what, t, e))?;
    }
    Ok(())
}

pub fn argmax(v: &[f64]) -> usize {
    let mut b = 0;
    for i in 1..v.len() {
        if v[i] > v[b] {
            b = i;
        }
    }
    b
}

fn softmax(s: &[f64]) -> Vec<f64> {
    let m = s.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    let e: Vec<f64> = s.iter().map(|x| (x - m).exp()).collect();
    let t: f64 = e.iter().sum();
    e.iter().map(|x| x / t).collect()
}

fn max_abs(v: &[Vec<f64>]) -> f64 {
    v.iter().flatten().fold(0.0f64, |a, b| a.max(b.abs()))
}

fn onehot_class(v: &[f64]) -> Option<usize> {
    let c = v.iter().position(|&x| x == 1.0)?;
    if v.iter().enumerate().all(|(i, &x)| x == if i == c { 1.0 } else { 0.0 }) {
        Some(c)
    } else {
        None
    }
}

/// scores of a row from the model's own trees, and a bound on their rounding error
fn scores_of<E: Ens>(flats: &[Flat<E::L>], guess: &[f64], lr: f64, row: &[f64]) -> Result<(Vec<f64>, f64), String> {
    let mut s = guess.to_vec();
    let mut mag = guess.iter().fold(0.0f64, |a, b| a.max(b.abs()));
    for f in flats {
        let c = E::contrib(f.leaf(row), s.len())?;
        let mut step = 0.0f64;
        for j in 0..s.len() {
            s[j] += lr * c[j];
            step = step.max((lr * c[j]).abs());
        }
        mag += step;
    }
    Ok((s, 8.0 * EPS * (flats.len() as f64 + 2.0) * mag))
}

pub fn check_prediction<E: Ens>(flats: &[Flat<E::L>], guess: &[f64], lr: f64, row: &[f64], got: &[f64]) -> Res {
    let (want, tol) = scores_of::<E>(flats, guess, lr, row)?;
    ensure!(got.len() == want.len(), "{}: prediction has {} entries, expected {}", E::NAME, got.len(), want.len());
    if E::CLASS {
        let c = match onehot_class(got) {
            Some(c) => c,
            None => return Err(format!("{}: prediction {:?} is not one-hot", E::NAME, got)),
        };
        let b = argmax(&want);
        if flats.is_empty() {
            ensure!(c == b, "{}: no trees, all scores equal, but class {} predicted", E::NAME, c);
        }
        ensure!(want[c] >= want[b] - 2.0 * tol, "{}: row {:?} predicted class {} with score {:e}, but class {} has {:e}", E::NAME, row, c, want[c], b, want[b]);
    } else {
        for j in 0..want.len() {
            ensure!(
                (got[j] - want[j]).abs() <= tol || got[j] == want[j],
                "{}: row {:?} target {} predicted {:e}, mean plus learning rate times leaf outputs is {:e} (slack {:e})",
                E::NAME, row, j, got[j], want[j], tol
            );
        }
    }
    Ok(())
}

/// The stagewise contract of a trained model: residuals, greedy growth, leaf outputs, predictions.
fn stagewise<E: Ens>(m: &E, d: &Data, levels: u32, iters: usize, lr: f64, queries: &[Vec<f64>], ctx: &mut Ctx) -> Res {
    let (n, k) = (d.n(), d.k);
    ensure!(m.trees().len() == iters, "{}: {} trees after {} iterations", E::NAME, m.trees().len(), iters);
    let guess = m.guess();
    ensure!(guess.len() == k, "{}: initial guess has {} entries", E::NAME, guess.len());
    let lmax = max_abs(&d.labels);
    let all: Vec<usize> = (0..n).collect();
    let want = if E::CLASS { vec![1.0 / k as f64; k] } else { mean_labels(&d.labels, &all) };
    for j in 0..k {
        let tol = if E::CLASS { 4.0 * EPS } else { 8.0 * EPS * (n as f64 + 4.0) * lmax };
        ensure!((guess[j] - want[j]).abs() <= tol, "{}: initial guess {:?}, expected {:?}", E::NAME, guess, want);
    }
    let flats: Vec<Flat<E::L>> = m.trees().iter().map(|t| Flat::new(t, d.ncols())).collect::<Result<_, _>>()?;
    let mut scores: Vec<Vec<f64>> = vec![guess.clone(); n];
    let mut smax = max_abs(&scores).max(lmax);
    for (t, fl) in flats.iter().enumerate() {
        let at = |e: String| format!("{}: tree {}: {}", E::NAME, t, e);
        let res: Vec<Vec<f64>> = (0..n)
            .map(|i| {
                let cur = if E::CLASS { softmax(&scores[i]) } else { scores[i].clone() };
                (0..k).map(|j| d.labels[i][j] - cur[j]).collect()
            })
            .collect();
        // how far the implementation's residuals may be from these by rounding alone
        let delta = 8.0 * EPS * (t as f64 + 4.0 + if E::CLASS { k as f64 } else { 0.0 }) * (smax + if E::CLASS { 1.0 } else { 0.0 });
        let extra = |idx: &[usize]| 8.0 * delta * (max_abs_sum(&res, idx) + k as f64 * delta);
        let g = check_growth(fl, &d.rows, &res, levels, false, &extra).map_err(at)?;
        if g.max_gain_over_tol && fl.internal() > 0 && t > 0 {
            ctx.nontrivial = true;
        }
        let scal = (k as f64 - 1.0) / k as f64;
        for (id, idx) in &g.leaf_rows {
            let m_l = idx.len() as f64;
            let got = E::contrib(fl.leaves[*id].unwrap(), k).map_err(at)?;
            if !E::CLASS {
                let want = mean_labels(&res, idx);
                let mx = idx.iter().map(|&i| res[i].iter().fold(0.0f64, |a, b| a.max(b.abs()))).fold(0.0, f64::max);
                let tol = 8.0 * EPS * (m_l + 4.0) * mx + 2.0 * delta;
                for j in 0..k {
                    ensure!((got[j] - want[j]).abs() <= tol, "{}: tree {}: leaf with rows {} outputs {:e} for target {}, mean residual is {:e} (slack {:e})", E::NAME, t, clip(&format!("{:?}", idx), 120), got[j], j, want[j], tol);
                }
                continue;
            }
            let num: Vec<f64> = (0..k).map(|j| idx.iter().map(|&i| res[i][j]).sum()).collect();
            let den: Vec<f64> = (0..k).map(|j| idx.iter().map(|&i| { let a = res[i][j].abs(); a * (1.0 - a) }).sum()).collect();
            let err = 4.0 * m_l * (delta + 4.0 * EPS * (m_l + 4.0));
            // does `out` satisfy out * den == scal * num, up to the error of num and den?
            // (a denominator that may be zero leaves the formula undefined: any finite output)
            let fits = |out: f64, j: usize| out.is_finite() && (den[j] <= 2.0 * err || (out * den[j] - scal * num[j]).abs() <= (1.0 + out.abs()) * err);
            let kept = E::kept(fl.leaves[*id].unwrap());
            if kept.is_none() {
                for j in 0..k {
                    ensure!(fits(got[j], j), "{}: tree {}: leaf with rows {} outputs {:e} for class {}, expected {:e} = {} * {:e} / {:e}", E::NAME, t, clip(&format!("{:?}", idx), 120), got[j], j, scal * num[j] / den[j], scal, num[j], den[j]);
                }
            } else {
                let (c, v) = kept.unwrap();
                ensure!(fits(v, c), "{}: tree {}: leaf with rows {} stores {:e} for class {}, expected {:e} = {} * {:e} / {:e}", E::NAME, t, clip(&format!("{:?}", idx), 120), v, c, scal * num[c] / den[c], scal, num[c], den[c]);
                for j in 0..k {
                    // another class whose output is certainly larger than v?
                    if den[j] > 4.0 * err {
                        let o = scal * num[j] / den[j];
                        let slack = (1.0 + o.abs()) * err * 2.0 / (den[j] - err) + (1.0 + v.abs()) * err * 2.0 / (den[c] - err).max(1e-300);
                        ensure!(!(o > v + slack), "{}: tree {}: leaf with rows {} keeps class {} with {:e} although class {} has the larger output {:e}", E::NAME, t, clip(&format!("{:?}", idx), 120), c, v, j, o);
                    }
                }
            }
        }
        for i in 0..n {
            let c = E::contrib(fl.leaf(&d.rows[i]), k)?;
            for j in 0..k {
                scores[i][j] += lr * c[j];
                smax = smax.max(scores[i][j].abs()).max((lr * c[j]).abs());
            }
        }
    }
    for row in d.rows.iter().take(40).chain(queries) {
        check_prediction::<E>(&flats, guess, lr, row, &m.predict(row)).map_err(|e| format!("after {} iterations: {}", iters, e))?;
    }
    Ok(())
}

fn gen_iters(src: &mut Src, d: &Data) -> usize {
    let work = d.n() * d.ncols() * d.k;
    if d.n() > 50_000 || d.ncols() > 50_000 {
        return 1 + src.draw(2) as usize;
    }
    let top = (3_000_000 / (work * 3 + 200)).clamp(2, 150) as u64;
    if d.n() <= 3 && src.chance(1, 2000) {
        return 65_530 + src.draw(200) as usize;
    }
    if work < 30 && src.chance(1, 300) {
        return 1_000 + src.draw(5_000) as usize;
    }
    if work < 120 && src.chance(1, 150) {
        return 250 + src.draw(900) as usize;
    }
    match src.weighted(&[1, 2, 6, 3, 1]) {
        0 => 0,
        1 => 1,
        2 => 2 + src.draw(6) as usize,
        3 => 2 + src.draw(20.min(top)) as usize,
        _ => 2 + src.draw(top) as usize,
    }
}

fn boost_opts(src: &mut Src, class: bool) -> Opts {
    let mode = if class {
        LabelMode::OneHot
    } else {
        match src.draw(4) {
            0 => LabelMode::Exact,
            1 => LabelMode::OneHot,
            _ => LabelMode::Regression,
        }
    };
    let mut o = Opts::new(mode);
    o.sizes = SIZES_BOOST;
    o
}

fn boost_levels(src: &mut Src) -> u32 {
    match src.weighted(&[2, 5, 5, 5, 3, 2]) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 3,
        4 => 4 + src.draw(8) as u32,
        _ => no_limit(src),
    }
}

fn stage_case<E: Ens>(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.chance(1, 5) {
        return hand_model::<E>(src, ctx);
    }
    let mut o = boost_opts(src, E::CLASS);
    o.one_class = E::NAME == "multi-class boost";
    o.bushy = 15;
    let d = gen_data(src, &o);
    if E::CLASS && d.k == 1 {
        ctx.label("one-class");
    }
    let mut levels = boost_levels(src);
    if d.class == "huge" {
        levels = levels.min(2);
    }
    let mut iters = gen_iters(src, &d);
    let mut lr = if src.chance(1, 40) { [1.5, 2.0, 0.0][src.draw(3) as usize] } else { gen_lr(src) };
    if d.class == "bushy" {
        // (a second tree on residuals that are nothing but rounding would be a chain)
        levels = no_limit(src);
        iters = 1 + src.draw(2) as usize;
        lr = lr.min(0.5);
    }
    let mt = src.chance(1, 2);
    let q = gen_queries(src, &d, 10);
    ctx.describe(|| format!("levels {} iterations {} learning rate {} multi-threading {} queries {} {}", levels, iters, lr, mt, clip(&format!("{:?}", q), 200), d.show()));
    ctx.label(d.class);
    ctx.label(if iters == 0 { "no-iterations" } else if iters > 20 { "iterations>20" } else { "iterations<=20" });
    let m = E::train(d.mt(), config(d.k, levels, mt), iters as u32, lr);
    stagewise(&m, &d, levels, iters, lr, &q, ctx)?;
    // fewer (or more) iterations: the same trees
    if iters > 0 && src.chance(1, 3) {
        let less = src.draw(iters as u64) as usize;
        ctx.label("prefix");
        let m2 = E::train(d.mt(), config(d.k, levels, mt), less as u32, lr);
        ensure!(m2.trees().len() == less, "{}: {} trees after {} iterations", E::NAME, m2.trees().len(), less);
        ensure!(bits(m2.guess()) == bits(m.guess()), "{}: the initial guess depends on the number of iterations", E::NAME);
        same_trees::<E>(m2.trees(), m.trees(), d.ncols(), "trained with fewer iterations")?;
    }
    Ok(())
}

/// A hand-made ensemble with dyadic leaf values: all sums are exact, predictions must be too.
fn hand_model<E: Ens>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let ncols = src.range(1, 4);
    let wide = src.chance(1, 200);
    let k = if wide { src.range(240, 400) } else if src.chance(1, 12) { src.range(10, 40) } else { src.range(if E::CLASS { 2 } else { 1 }, 5) };
    let many = src.chance(1, 40);
    let nt = if many && !wide { src.range(200, 700) } else { src.range(0, 8) };
    let lr = [1.0, 0.5, 0.25, 0.125][src.draw(4) as usize];
    let guess: Vec<f64> = if src.draw(2) == 0 { vec![0.25; k] } else { (0..k).map(|_| src.zig(17) as f64 / 4.0).collect() };
    let mut trees = vec![];
    for _ in 0..nt {
        let depth = if many { src.range(0, 1) } else { src.range(0, 4) };
        trees.push(Box::new(gen_tree(src, ncols, depth, &mut |s: &mut Src| E::gen_leaf(s, k))));
    }
    if many {
        ctx.label("trees>=200");
    }
    let mut th = vec![];
    for t in &trees {
        hand_thresholds(t, &mut th);
    }
    let nq = src.range(1, 12);
    let q = gen_rows_for(src, &th, ncols, nq);
    ctx.label("hand-made");
    ctx.nontrivial = !th.is_empty();
    let m = E::make(trees, guess, lr);
    ctx.describe(|| format!("hand-made {} lr {} guess {:?} thresholds {} rows {:?}", E::NAME, lr, m.guess(), clip(&format!("{:?}", th), 300), q));
    let flats: Vec<Flat<E::L>> = m.trees().iter().map(|t| Flat::new(t, ncols)).collect::<Result<_, _>>()?;
    for r in &q {
        let (want, _) = scores_of::<E>(&flats, m.guess(), lr, r)?;
        let got = m.predict(r);
        if E::CLASS {
            let b = argmax(&want);
            if want.iter().filter(|x| **x == want[b]).count() > 1 {
                ctx.label("score-tie");
            }
            let c = onehot_class(&got);
            // value / (K-1) and value * (1 / (K-1)) are only the same number when K-1 is a power of two
            let ok = if E::NAME == "AMG boost" && !(k - 1).is_power_of_two() {
                let mag: f64 = flats.iter().map(|f| E::contrib(f.leaf(r), k).map_or(0.0, |c| c.iter().fold(0.0f64, |a, x| a.max(x.abs())))).sum::<f64>() + m.guess().iter().fold(0.0f64, |a, x| a.max(x.abs()));
                c.map_or(false, |c| want[c] >= want[b] - 4.0 * EPS * (flats.len() as f64 + 2.0) * mag)
            } else {
                c == Some(b)
            };
            ensure!(ok, "{}: hand-made model, row {:?} has scores {:?} but the prediction is {:?}", E::NAME, r, want, got);
        } else {
            ensure!(got == want, "{}: hand-made model, row {:?} should give {:?} but the prediction is {:?}", E::NAME, r, want, got);
        }
    }
    Ok(())
}

pub fn c13(src: &mut Src, ctx: &mut Ctx) -> Res {
    stage_case::<RegressionBoostModel>(src, ctx)
}
pub fn c14(src: &mut Src, ctx: &mut Ctx) -> Res {
    stage_case::<MultiClassBoostModel>(src, ctx)
}
pub fn c15(src: &mut Src, ctx: &mut Ctx) -> Res {
    stage_case::<AMGBoostModel>(src, ctx)
}

// ---------------------------------------------------------------- C16

fn long_case<E: Ens>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let separable = !src.chance(1, 2);
    let mut o = Opts::new(LabelMode::OneHot);
    o.sizes = [400, 500, 20, 0, 20, 30, 0];
    o.inj = if separable { 100 } else { 10 };
    let d = gen_data(src, &o);
    // (sets of some thousand columns have no column that is different on every row)
    let separable = separable && d.inj.is_some();
    let levels = if separable { d.n() as u32 + [0u32, 1, 10, 1 << 20][src.draw(4) as usize] } else { boost_levels(src) };
    let lr = if src.chance(1, 3) { 1.0 } else { gen_lr(src) };
    let budget = 3_000_000 / (d.n() * d.ncols() * d.k + 50 * d.n().min(40));
    // enough steps for the scores to pass the point where the softmax is exactly 0 or 1
    let past = (1600.0 / lr) as u64;
    let iters = src.draw(past.min(budget as u64).max(2)) as usize + 1;
    let mt = src.chance(1, 8);
    ctx.describe(|| format!("{} separable {} levels {} iterations {} lr {} {}", E::NAME, separable, levels, iters, lr, d.show()));
    ctx.label(if separable { "separable" } else { "any-data" });
    ctx.label(if iters > 1000 { "iterations>1000" } else if iters > 200 { "iterations>200" } else { "iterations<=200" });
    let m = E::train(d.mt(), config(d.k, levels, mt), iters as u32, lr);
    ensure!(m.trees().len() == iters, "{}: {} trees after {} iterations", E::NAME, m.trees().len(), iters);
    let truth: Vec<usize> = d.labels.iter().map(|l| argmax(l)).collect();
    let (n, k) = (d.n(), d.k);
    let mut scores = vec![m.guess().clone(); n];
    let mut saturated = false;
    for (t, tree) in m.trees().iter().enumerate() {
        let fl = Flat::new(tree, d.ncols())?;
        for (i, nd) in fl.nodes.iter().enumerate() {
            if nd.leaf {
                let c = E::contrib(fl.leaves[i].unwrap(), k)?;
                ensure!(c.iter().all(|x| x.is_finite()), "{}: tree {} has a leaf output {:?}", E::NAME, t, c);
            }
        }
        for i in 0..n {
            let c = E::contrib(fl.leaf(&d.rows[i]), k)?;
            for j in 0..k {
                scores[i][j] += lr * c[j];
            }
            ensure!(scores[i].iter().all(|x| x.is_finite()), "{}: scores of training row {} are {:?} after {} iterations", E::NAME, i, scores[i], t + 1);
            if separable {
                let (b, s) = (truth[i], &scores[i]);
                ensure!((0..k).all(|j| j == b || s[j] < s[b]), "{}: training row {} of class {} has scores {:?} after {} iterations", E::NAME, i, b, s, t + 1);
                if (0..k).all(|j| j == b || s[j] < s[b] - 40.0) {
                    saturated = true;
                }
            }
        }
    }
    for i in 0..n.min(30) {
        let p = m.predict(&d.rows[i]);
        ensure!(onehot_class(&p).is_some(), "{}: prediction {:?}", E::NAME, p);
        if separable {
            ensure!(onehot_class(&p) == Some(truth[i]), "{}: training row {} of class {} predicted {:?} after {} iterations", E::NAME, i, truth[i], p, iters);
        }
    }
    if separable {
        let s = m.calculate_score(&d.mt());
        ensure!(s == 1.0, "{}: training accuracy {} after {} iterations on separable classes", E::NAME, s, iters);
        ctx.nontrivial = truth.iter().any(|&c| c != truth[0]) && iters >= 20;
        if saturated {
            ctx.label("softmax-saturated");
        }
    } else {
        ctx.nontrivial = iters >= 20;
    }
    Ok(())
}

pub fn c16(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.draw(2) == 0 {
        long_case::<MultiClassBoostModel>(src, ctx)
    } else {
        long_case::<AMGBoostModel>(src, ctx)
    }
}

// ---------------------------------------------------------------- C17

/// lets a model be shared with scoped threads whatever its fields are
pub struct Share<T>(pub T);
unsafe impl<T> Sync for Share<T> {}
unsafe impl<T> Send for Share<T> {}
impl<T> Share<T> {
    pub fn get(&self) -> &T {
        &self.0
    }
}

fn check_score<E: Ens>(m: &E, set: &MultiTargetDataSet, single: &[Vec<f64>]) -> Res {
    let all = m.calculate_all_predictions(set);
    ensure!(all.len() == single.len(), "{}: {} predictions for {} rows", E::NAME, all.len(), single.len());
    for (i, (a, s)) in all.iter().zip(single).enumerate() {
        ensure!(bits(a) == bits(s), "{}: row {} of {} is predicted {:?} in the batch and {:?} alone", E::NAME, i, single.len(), a, s);
    }
    let got = m.calculate_score(set);
    if E::CLASS {
        let correct = single.iter().zip(&set.labels).filter(|(a, b)| a == b).count();
        let want = correct as f64 / single.len() as f64;
        ensure!((got - want).abs() < 1e-12, "{}: accuracy {} but {} of {} predictions equal the label", E::NAME, got, correct, single.len());
    } else {
        let mut tot = 0.0;
        for (p, a) in single.iter().zip(&set.labels) {
            tot += p.iter().zip(a).map(|(x, y)| (x - y) * (x - y)).sum::<f64>() / a.len() as f64;
        }
        let want = tot / single.len() as f64;
        ensure!((got - want).abs() <= 1e-10 * want, "{}: score {:e} but the mean squared error of its predictions is {:e}", E::NAME, got, want);
    }
    Ok(())
}

fn score_case<E: Ens>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let hand = src.chance(1, 3);
    let (m, rows, k, mut base): (E, Vec<Vec<f64>>, usize, Vec<Vec<f64>>);
    if hand {
        let ncols = src.range(1, 4);
        k = if src.chance(1, 12) { src.range(10, 40) } else { src.range(if E::CLASS { 2 } else { 1 }, 5) };
        let many = src.chance(1, 100);
        let nt = if many { src.range(50, 400) } else if src.chance(1, 12) { src.range(7, 60) } else { src.range(0, 6) };
        let mut trees = vec![];
        for _ in 0..nt {
            let depth = if many { src.range(0, 1) } else { src.range(0, 4) };
            trees.push(Box::new(gen_tree(src, ncols, depth, &mut |s: &mut Src| E::gen_leaf(s, k))));
        }
        let mut th = vec![];
        for t in &trees {
            hand_thresholds(t, &mut th);
        }
        let guess: Vec<f64> = if src.draw(2) == 0 { vec![0.25; k] } else { (0..k).map(|_| src.zig(17) as f64 / 4.0).collect() };
        let lr = [1.0, 0.5, 0.1][src.draw(3) as usize];
        m = E::make(trees, guess, lr);
        let nq = match src.weighted(if many { &[30, 4, 1, 0] } else { &[5000, 400, 40, 2] }) {
            0 => src.range(1, 20),
            1 => src.range(100, 900),
            2 => src.range(1000, 6000),
            _ => src.range(65_500, 66_500),
        };
        if nq > 60_000 {
            ctx.label("rows>60000");
        }
        rows = gen_rows_for(src, &th, ncols, nq);
        base = vec![];
        ctx.label("hand-made");
        ctx.describe(|| format!("hand-made {} thresholds {} rows {}", E::NAME, clip(&format!("{:?}", th), 200), clip(&format!("{:?}", rows), 300)));
    } else {
        let o = boost_opts(src, E::CLASS);
        let d = gen_data(src, &o);
        k = d.k;
        let mut levels = boost_levels(src);
        if d.class == "huge" {
            levels = levels.min(2);
        }
        let iters = gen_iters(src, &d).min(10);
        let lr = gen_lr(src);
        m = E::train(d.mt(), config(d.k, levels, src.chance(1, 3)), iters as u32, lr);
        rows = if src.chance(1, 4) { d.rows.clone() } else { gen_queries(src, &d, 30) };
        base = if rows.len() == d.n() { d.labels.clone() } else { vec![] };
        ctx.label(d.class);
        ctx.describe(|| format!("{} levels {} iterations {} lr {} queries {} {}", E::NAME, levels, iters, lr, clip(&format!("{:?}", rows), 200), d.show()));
    }
    let single: Vec<Vec<f64>> = rows.iter().map(|r| m.predict(r)).collect();
    if base.is_empty() {
        base = single
            .iter()
            .map(|p| {
                if E::CLASS {
                    crate::trees::test_label(src, p)
                } else if src.draw(3) == 0 {
                    p.clone()
                } else {
                    p.iter().map(|v| v + src.zig(9) as f64 / 2.0).collect()
                }
            })
            .collect();
    }
    let mut distinct = multiset(single.iter());
    distinct.dedup();
    ctx.nontrivial = rows.len() >= 2 && (distinct.len() >= 2 || base.iter().zip(&single).any(|(a, b)| a != b));
    check_score(&m, &make_mt(&rows, &base), &single)?;
    // more rows than a 24-bit mantissa counts
    if E::CLASS && k <= 4 && m.trees().len() <= 2 && rows[0].len() == 1 && src.chance(1, 800) {
        ctx.label("rows>2^24");
        let n = (1 << 24) + 1 + src.draw(100) as usize;
        let _heavy = heavy();
        let got = m.calculate_score(&replicated(&rows, &single, n));
        ensure!((got - 1.0).abs() < 1e-12, "{}: accuracy {} but all of {} rows are predicted as labelled", E::NAME, got, n);
    }
    let m = Share(m);
    if src.chance(1, 4) || rows.len() >= 100 {
        // on several worker threads: the order of the answers must not depend on who finishes first
        ctx.label("thread-pool");
        let set = make_mt(&rows, &base);
        let (sh, single, set) = (&m, &single, &set);
        crate::meta::pools()[3].install(move || check_score(sh.get(), set, single))?;
    }
    let m = m.0;
    // other compositions of the test set
    for _ in 0..2 {
        let idx: Vec<usize> = match src.draw(3) {
            0 => src.perm(rows.len()),
            1 => {
                let l = src.range(1, 2 * rows.len());
                (0..l).map(|_| src.draw(rows.len() as u64) as usize).collect()
            }
            _ => vec![src.draw(rows.len() as u64) as usize],
        };
        let r2: Vec<Vec<f64>> = idx.iter().map(|&i| rows[i].clone()).collect();
        let l2: Vec<Vec<f64>> = idx.iter().map(|&i| base[i].clone()).collect();
        let s2: Vec<Vec<f64>> = idx.iter().map(|&i| single[i].clone()).collect();
        check_score(&m, &make_mt(&r2, &l2), &s2)?;
    }
    if src.chance(1, 4) {
        ctx.label("concurrent");
        let sh = Share(m);
        let order: Vec<Vec<usize>> = (0..3).map(|_| src.perm(rows.len())).collect();
        let set = make_mt(&rows, &base);
        let errs: Vec<Res> = std::thread::scope(|s| {
            let hs: Vec<_> = order
                .iter()
                .map(|o| {
                    let (sh, rows, single, set) = (&sh, &rows, &single, &set);
                    s.spawn(move || {
                        for &i in o {
                            let p = sh.get().predict(&rows[i]);
                            ensure!(bits(&p) == bits(&single[i]), "{}: row {} predicted {:?} concurrently and {:?} alone", E::NAME, i, p, single[i]);
                        }
                        check_score(sh.get(), set, single)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(format!("panic: {}", last_panic())))).collect()
        });
        for e in errs {
            e?;
        }
    }
    Ok(())
}

pub fn c17(src: &mut Src, ctx: &mut Ctx) -> Res {
    match src.draw(3) {
        0 => score_case::<RegressionBoostModel>(src, ctx),
        1 => score_case::<MultiClassBoostModel>(src, ctx),
        _ => score_case::<AMGBoostModel>(src, ctx),
    }
}

// ---------------------------------------------------------------- C20

pub fn c20(src: &mut Src, ctx: &mut Ctx) -> Res {
    type E = RegressionBoostModel;
    let mut o = boost_opts(src, false);
    o.inj = 40;
    let d = gen_data(src, &o);
    ctx.label(d.class);
    let (n, k) = (d.n(), d.k);
    let mt = src.chance(1, 2);
    let mut levels = boost_levels(src);
    if d.class == "huge" {
        levels = levels.min(2);
    }
    let lr = gen_lr(src);
    let mut iters = gen_iters(src, &d).clamp(1, 25);
    // a long history, looked at in six places
    let long = n * k * d.ncols() <= 60 && src.chance(1, 60);
    if long {
        iters = src.range(100, 1500);
        ctx.label("iterations>=100");
    }
    let mut at: Vec<usize> = vec![];
    if long {
        let a = src.draw(iters as u64) as usize;
        at = vec![0, a, a + 1, iters - 1, iters];
    }
    ctx.describe(|| format!("levels {} iterations {} lr {} mt {} {}", levels, iters, lr, mt, d.show()));
    let set = d.mt();
    let all: Vec<usize> = (0..n).collect();
    let mean = mean_labels(&d.labels, &all);
    let mag = max_abs(&d.labels);
    let mut prev = f64::INFINITY;
    let mut first = 0.0;
    for t in 0..=iters {
        // sampling the history: every early step, then every third
        if if long { !at.contains(&t) } else { t > 4 && t % 3 != 0 && t != iters } {
            continue;
        }
        let m = E::train(d.mt(), config(k, levels, mt), t as u32, lr);
        let e = m.calculate_score(&set);
        if t == 0 {
            first = e;
        }
        ensure!(e.is_finite(), "training error {:?} after {} iterations", e, t);
        let pe = prev.min(1e300);
        let slack = 1e-9 * pe + 16.0 * EPS * (t as f64 + 4.0) * mag * (pe.sqrt() + 16.0 * EPS * (t as f64 + 4.0) * mag);
        ensure!(e <= prev + slack, "training error grew from {:e} to {:e} by iteration {} (learning rate {})", prev, e, t, lr);
        prev = e;
        let p = m.calculate_all_predictions(&set);
        let pm = mean_labels(&p, &all);
        let tol = 64.0 * EPS * (n as f64 + 8.0) * (t as f64 + 2.0) * mag;
        for j in 0..k {
            ensure!((pm[j] - mean[j]).abs() <= tol, "after {} iterations target {} has mean prediction {:e} but mean label {:e} (slack {:e})", t, j, pm[j], mean[j], tol);
        }
    }
    ctx.nontrivial = iters >= 2 && prev < first * (1.0 - 1e-6);
    if d.inj.is_some() && n <= 220 {
        ctx.label("injective");
        let m = E::train(d.mt(), config(k, n as u32 + 1, mt), 1, 1.0);
        let e = m.calculate_score(&set);
        let g = gain_tol(&d.labels, &all);
        let bound = (n * n) as f64 * 4.0 * g;
        ensure!(e <= bound, "column {} separates all rows, learning rate 1 and no level limit: one iteration leaves training error {:e} (slack {:e})", d.inj.unwrap(), e, bound);
    }
    Ok(())
}
