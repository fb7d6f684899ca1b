//! Properties of partitioning, split search and single trees (C04-C12, C19).
use crate::engine::*;
use crate::gen::*;
use crate::oracle::*;
use common::data_processor::{create_dataset_with_sorted_features, new_partition};
use common::datasets::*;
use common::question::Question;
use multi_target_decision_tree::data_partitioner::partition;
use multi_target_decision_tree::decision_trees::*;
use multi_target_decision_tree::grad_boost_decision_trees::grad_boost_leaf_output::*;
use multi_target_decision_tree::grad_boost_decision_trees::*;
use multi_target_decision_tree::leaf::*;
use multi_target_decision_tree::node::TreeNode;
use multi_target_decision_tree::scorer::{classification, regression};
use multi_target_decision_tree::split_finder::{SplitFinder, SplitMetric};

// ---------------------------------------------------------------- C04

fn gen_threshold(src: &mut Src, vals: &[f64]) -> f64 {
    let v = vals[src.draw(vals.len() as u64) as usize];
    let w = vals[src.draw(vals.len() as u64) as usize];
    let max = vals.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    let min = vals.iter().cloned().fold(f64::INFINITY, f64::min);
    let t = match src.weighted(&[6, 3, 2, 2, 2, 2, 1, 1, 1]) {
        0 => v,
        1 => v / 2.0 + w / 2.0,
        2 => ulp_safe(v, 1),
        3 => ulp_safe(v, -1),
        4 => ulp_safe(max, 1),
        5 => max + 1.0,
        6 => min - 1.0,
        7 => -v,
        _ => 0.0,
    };
    if t.is_finite() {
        t
    } else {
        v
    }
}

fn check_side(name: &str, side: &MultiTargetDataSet, rows: &[Vec<f64>], labels: &[Vec<f64>], idx: &[usize], ncols: usize) -> Res {
    ensure!(
        side.feature_rows.len() == idx.len() && side.labels.len() == idx.len(),
        "{} side has {} rows and {} labels, expected {}",
        name, side.feature_rows.len(), side.labels.len(), idx.len()
    );
    for (p, &i) in idx.iter().enumerate() {
        ensure!(bits(&side.feature_rows[p]) == bits(&rows[i]), "{} side row {} is {:?}, expected original row {} {:?}", name, p, side.feature_rows[p], i, rows[i]);
        ensure!(bits(&side.labels[p]) == bits(&labels[i]), "{} side label {} is {:?}, expected label of row {} {:?}", name, p, side.labels[p], i, labels[i]);
    }
    if idx.is_empty() {
        ensure!(side.feature_columns.iter().all(|c| c.is_empty()), "{} side is empty but its columns are not", name);
    } else {
        ensure!(side.feature_columns.len() == ncols, "{} side has {} feature columns, expected {}", name, side.feature_columns.len(), ncols);
        for c in 0..ncols {
            let want: Vec<f64> = idx.iter().map(|&i| rows[i][c]).collect();
            ensure!(bits(&side.feature_columns[c]) == bits(&want), "{} side column {} is not the transpose of its rows", name, c);
        }
    }
    Ok(())
}

fn check_sorted_side(name: &str, side: &MultiTargetDataSetSortedFeatures, rows: &[Vec<f64>], labels: &[Vec<f64>], idx: &[usize], ncols: usize) -> Res {
    ensure!(side.labels.len() == idx.len(), "presorted {} side has {} labels, expected {}", name, side.labels.len(), idx.len());
    for (p, &i) in idx.iter().enumerate() {
        ensure!(bits(side.labels[p]) == bits(&labels[i]), "presorted {} side label {} is {:?}, expected label of row {} {:?}", name, p, side.labels[p], i, labels[i]);
    }
    ensure!(side.sorted_feature_columns.len() == ncols, "presorted {} side has {} columns, expected {}", name, side.sorted_feature_columns.len(), ncols);
    for c in 0..ncols {
        let col = &side.sorted_feature_columns[c];
        let mut got: Vec<(u64, usize)> = col.iter().map(|(v, i)| (v.to_bits(), *i)).collect();
        let mut want: Vec<(u64, usize)> = idx.iter().map(|&i| (rows[i][c].to_bits(), i)).collect();
        got.sort_unstable();
        want.sort_unstable();
        ensure!(got == want, "presorted {} side column {} does not hold exactly its rows' values: got {:?} want {:?}", name, c, clip(&format!("{:?}", col), 200), clip(&format!("{:?}", idx), 200));
        ensure!(col.windows(2).all(|w| w[0].0 <= w[1].0), "presorted {} side column {} is not ascending", name, c);
    }
    Ok(())
}

pub fn c04(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut o = Opts::new(LabelMode::Regression);
    o.sizes = [200, 400, 250, 60, 40, 30, 4];
    let d = gen_data(src, &o);
    ctx.describe(|| d.show());
    ctx.label(d.class);
    let nc = d.ncols();
    // a long history takes a few rows off at a time
    let long = d.n() <= 400 && nc <= 8 && src.chance(1, 60);
    if long {
        ctx.label("long-history");
    }
    let steps_pos = src.pos();
    let steps = 1 + src.draw(if long { 80 } else { 6 }) as usize;
    let mut idx: Vec<usize> = (0..d.n()).collect();
    let mut cur = d.mt();
    let all = d.mt();
    let all_labels: Vec<&Vec<f64>> = all.labels.iter().collect();
    let mut cur_sorted = create_dataset_with_sorted_features(&all);
    check_sorted_side("initial", &cur_sorted, &d.rows, &d.labels, &idx, nc)?;
    for step in 0..steps {
        let s = src.pos();
        let col = src.draw(nc as u64) as usize;
        let vals: Vec<f64> = if src.chance(1, 5) { d.rows.iter().map(|r| r[col]).collect() } else { idx.iter().map(|&i| d.rows[i][col]).collect() };
        let mut thr = gen_threshold(src, &vals);
        let mut go_true = src.draw(2) == 0;
        if long && src.chance(9, 10) {
            let mut v: Vec<f64> = idx.iter().map(|&i| d.rows[i][col]).collect();
            v.sort_by(|a, b| a.partial_cmp(b).unwrap());
            v.dedup();
            thr = v[if go_true { 1.min(v.len() - 1) } else { v.len() - 1 }];
            if v.len() == 1 {
                go_true = true;
            }
        }
        if src.record {
            let e = src.pos();
            src.dels.push(Deletable { dec: steps_pos, idx: vec![(s, e)] });
        }
        ctx.describe(|| format!("step {}: column {} >= {:?}", step, col, thr));
        let (t, f): (Vec<usize>, Vec<usize>) = idx.iter().partition(|&&i| d.rows[i][col] >= thr);
        if t.is_empty() || f.is_empty() {
            ctx.label("one-sided");
        } else {
            ctx.nontrivial = true;
            if step > 0 {
                ctx.label("repeated-two-sided");
            }
        }
        let q = Question::new(col as u32, thr);
        for &i in &idx {
            ensure!(q.solve(&d.rows[i]) == (d.rows[i][col] >= thr), "question column {} >= {:?} answers wrongly for {:?}", col, thr, d.rows[i][col]);
        }
        let (fd, td) = partition(&cur, &q);
        check_side("true", &td, &d.rows, &d.labels, &t, nc)?;
        check_side("false", &fd, &d.rows, &d.labels, &f, nc)?;
        let (ts, fs) = new_partition(&cur_sorted, col, thr, &all_labels);
        check_sorted_side("true", &ts, &d.rows, &d.labels, &t, nc)?;
        check_sorted_side("false", &fs, &d.rows, &d.labels, &f, nc)?;
        let take_true = if t.is_empty() { false } else if f.is_empty() { true } else { go_true };
        if take_true {
            idx = t;
            cur = td;
            cur_sorted = ts;
        } else {
            idx = f;
            cur = fd;
            cur_sorted = fs;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C05

pub fn c05(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mode = if src.chance(1, 3) { LabelMode::OneHot } else { LabelMode::Regression };
    let mut o = Opts::new(mode);
    o.sizes = [200, 400, 250, 60, 40, 30, 4];
    o.deep = 3;
    let d = gen_data(src, &o);
    ctx.describe(|| d.show());
    ctx.label(d.class);
    let idx: Vec<usize> = (0..d.n()).collect();
    let r = (SplitFinder::new(SplitMetric::Variance).find_best_split)(&d.mt(), d.k as u32);
    let b = best_gain(&d.rows, &d.labels, &idx);
    let tol = 2.0 * gain_tol(&d.labels, &idx);
    let ties = (0..d.ncols()).any(|c| {
        let mut v: Vec<u64> = d.rows.iter().map(|r| r[c].to_bits()).collect();
        v.sort_unstable();
        v.dedup();
        v.len() < d.n() && v.len() > 1
    });
    if ties {
        ctx.label("tied-values");
    }
    if b.gain > 2.0 * tol {
        ctx.nontrivial = true;
    }
    let (col, val) = (r.question.column as usize, r.question.value);
    ensure!(r.gain.is_finite() && r.gain >= 0.0, "gain is {:?}", r.gain);
    if r.gain > 0.0 {
        ensure!(col < d.ncols(), "question refers to column {} of {}", col, d.ncols());
        let (g, nl, nr) = gain_of(&d.rows, &d.labels, &idx, col, val);
        ensure!(nl > 0 && nr > 0, "positive gain {:e} but question column {} >= {:?} leaves one side empty ({}/{})", r.gain, col, val, nl, nr);
        ensure!(d.rows.iter().any(|x| x[col] == val), "threshold {:?} is not a value of column {}", val, col);
        ensure!(g >= b.gain - tol, "chosen column {} >= {:?} reduces variance by {:e} but column {} >= {:?} gives {:e} (slack {:e})", col, val, g, b.col, b.val, b.gain, tol);
        ensure!((r.gain - g).abs() <= tol, "reported gain {:e} but the question column {} >= {:?} achieves {:e} (slack {:e})", r.gain, col, val, g, tol);
        ensure!(!(d.exact && d.labels.iter().all(|l| *l == d.labels[0])), "positive gain {:e} although all labels are equal", r.gain);
    } else {
        ctx.label("zero-gain");
        ensure!(b.gain <= tol, "no split found but column {} >= {:?} reduces the variance by {:e} (slack {:e})", b.col, b.val, b.gain, tol);
    }
    // the search over presorted columns is seen through the questions of a small tree
    if src.chance(1, 4) {
        ctx.label("presorted search");
        let levels = 1 + src.draw(3) as u32;
        let data = d.mt();
        let t = RegressionMultiTargetDecisionTreeNewPartition::new(create_dataset_with_sorted_features(&data), config(d.k, levels, false)).root;
        let fl = Flat::new(&t, d.ncols())?;
        check_growth(&fl, &d.rows, &d.labels, levels, d.exact, &zero).map_err(|e| format!("presorted search: {}", e))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C06

fn growth_case<L: Leaf>(
    name: &str, d: &Data, levels: u32, deeper: u32, ctx: &mut Ctx,
    a: &TreeNode<L>, b: &TreeNode<L>,
) -> Res {
    let fa = Flat::new(a, d.ncols())?;
    let fb = Flat::new(b, d.ncols())?;
    ctx.label(name);
    let g = check_growth(&fa, &d.rows, &d.labels, levels, d.exact, &zero).map_err(|e| format!("{}: {}", name, e))?;
    check_growth(&fb, &d.rows, &d.labels, deeper, d.exact, &zero).map_err(|e| format!("{}: {}", name, e))?;
    if fa.internal() >= 2 && g.max_gain_over_tol {
        ctx.nontrivial = true;
    }
    if fa.depth() == levels && fb.depth() > levels {
        ctx.label("limit-binds");
    }
    if fb.depth() >= 8 {
        ctx.label("depth>=8");
    }
    if fb.depth() >= 20 {
        ctx.label("depth>=20");
        if fb.depth() >= 60 {
            ctx.label("depth>=60");
        }
    }
    // the deeper tree refines the shallower one
    let mut st = vec![(0usize, 0usize)];
    while let Some((i, j)) = st.pop() {
        let (x, y) = (&fa.nodes[i], &fb.nodes[j]);
        if x.leaf {
            ensure!(y.leaf || x.depth == levels, "{}: leaf at depth {} below the limit {} became a question when the limit was raised to {}", name, x.depth, levels, deeper);
        } else {
            ensure!(!y.leaf && x.col == y.col && x.val == y.val, "{}: raising max_levels {} to {} changed the question at depth {}", name, levels, deeper, x.depth);
            st.push((x.t, y.t));
            st.push((x.f, y.f));
        }
    }
    Ok(())
}

pub fn c06(src: &mut Src, ctx: &mut Ctx) -> Res {
    let kind = src.draw(9);
    let mode = if src.chance(1, 4) { LabelMode::OneHot } else { LabelMode::Regression };
    let mut o = Opts::new(mode);
    o.deep = 4;
    o.bushy = 40;
    let d = gen_data(src, &o);
    let mut levels = gen_levels(src);
    if d.class == "deep" && src.chance(2, 3) || d.class == "bushy" && src.chance(4, 5) {
        levels = no_limit(src);
    }
    if d.class == "huge" {
        levels = levels.min(3);
    }
    let deeper = levels.saturating_add([1u32, 1, 2, 3, 50][src.draw(5) as usize]);
    let deeper = if d.class == "huge" { deeper.min(4) } else { deeper };
    ctx.describe(|| format!("kind {} levels {} vs {} {}", kind, levels, deeper, d.show()));
    ctx.label(d.class);
    let (k, mt) = (d.k, kind % 2 == 1);
    let data = d.mt();
    match kind {
        0 | 1 => {
            let a = RegressionMultiTargetDecisionTree::new(data.clone(), config(k, levels, mt)).root;
            let b = RegressionMultiTargetDecisionTree::new(data, config(k, deeper, mt)).root;
            growth_case(if mt { "regression-mt" } else { "regression" }, &d, levels, deeper, ctx, &a, &b)
        }
        2 | 3 | 6 | 7 => {
            let lo = LeafOutputCalculator::new(if kind < 4 { LeafOutputType::Regression } else { LeafOutputType::MultiClassClassification });
            let a = GradBoostMultiTargetDecisionTree::new(data.clone(), config(k, levels, mt), lo).root;
            let b = GradBoostMultiTargetDecisionTree::new(data, config(k, deeper, mt), lo).root;
            growth_case(if mt { "gradboost-mt" } else { "gradboost" }, &d, levels, deeper, ctx, &a, &b)
        }
        4 | 5 => {
            let lo = LeafOutputCalculator::new(LeafOutputType::MultiClassClassification);
            let a = AMGBoostTree::new(data.clone(), config(k, levels, mt), lo).root;
            let b = AMGBoostTree::new(data, config(k, deeper, mt), lo).root;
            growth_case(if mt { "amg-mt" } else { "amg" }, &d, levels, deeper, ctx, &a, &b)
        }
        _ => {
            let s = create_dataset_with_sorted_features(&data);
            let a = RegressionMultiTargetDecisionTreeNewPartition::new(s.clone(), config(k, levels, false)).root;
            let b = RegressionMultiTargetDecisionTreeNewPartition::new(s, config(k, deeper, false)).root;
            growth_case("presorted", &d, levels, deeper, ctx, &a, &b)
        }
    }
}

// ---------------------------------------------------------------- C07

pub fn routes<L: Leaf>(fl: &Flat<L>, rows: &[Vec<f64>]) -> Vec<Vec<usize>> {
    let mut at = vec![vec![]; fl.nodes.len()];
    for (i, r) in rows.iter().enumerate() {
        at[fl.route(r)].push(i);
    }
    at
}

fn pair_multiset(rows: &[Vec<f64>], labels: &[Vec<f64>]) -> Vec<(Vec<u64>, Vec<u64>)> {
    let mut v: Vec<_> = rows.iter().zip(labels).map(|(r, l)| (bits(r), bits(l))).collect();
    v.sort();
    v
}

fn check_reg_leaves(fl: &Flat<RegressionLeaf>, d: &Data) -> Res {
    let at = routes(fl, &d.rows);
    let mut total = 0;
    for (i, n) in fl.nodes.iter().enumerate() {
        if !n.leaf {
            continue;
        }
        let data = match &fl.leaves[i].unwrap().data {
            Some(x) => x,
            None => return Err("a regression leaf stores no data".into()),
        };
        let m = data.feature_rows.len();
        ensure!(m > 0 && !data.labels.is_empty(), "an empty leaf at depth {}", n.depth);
        ensure!(m == data.labels.len(), "leaf with {} rows and {} labels", m, data.labels.len());
        total += m;
        let rows: Vec<Vec<f64>> = at[i].iter().map(|&x| d.rows[x].clone()).collect();
        let labels: Vec<Vec<f64>> = at[i].iter().map(|&x| d.labels[x].clone()).collect();
        ensure!(
            pair_multiset(&rows, &labels) == pair_multiset(&data.feature_rows, &data.labels),
            "leaf at depth {} stores {} but the training rows routed to it are {:?}",
            n.depth, clip(&format!("{:?} / {:?}", data.feature_rows, data.labels), 300), clip(&format!("{:?}", at[i]), 200)
        );
        ensure!(data.feature_columns.len() == d.ncols(), "leaf with {} feature columns", data.feature_columns.len());
        for c in 0..d.ncols() {
            let want: Vec<f64> = data.feature_rows.iter().map(|r| r[c]).collect();
            ensure!(bits(&want) == bits(&data.feature_columns[c]), "leaf column {} is not the transpose of the leaf rows", c);
        }
    }
    ensure!(total == d.n(), "leaves store {} rows of {}", total, d.n());
    Ok(())
}

pub fn check_presorted_leaves(fl: &Flat<RegressionLeafNewPartition>, d: &Data) -> Res {
    let at = routes(fl, &d.rows);
    let mut total = 0;
    for (i, n) in fl.nodes.iter().enumerate() {
        if !n.leaf {
            continue;
        }
        let data = match &fl.leaves[i].unwrap().data {
            Some(x) => x,
            None => return Err("a presorted leaf stores no data".into()),
        };
        ensure!(!data.labels.is_empty(), "an empty presorted leaf at depth {}", n.depth);
        total += data.labels.len();
        ensure!(data.sorted_feature_columns.len() == d.ncols(), "presorted leaf with {} columns", data.sorted_feature_columns.len());
        ensure!(
            multiset(data.labels.iter().copied()) == multiset(at[i].iter().map(|&x| &d.labels[x])),
            "presorted leaf at depth {} stores labels {} but the training rows routed to it are {}",
            n.depth, clip(&format!("{:?}", data.labels), 200), clip(&format!("{:?}", at[i]), 200)
        );
        for c in 0..d.ncols() {
            let col = &data.sorted_feature_columns[c];
            let mut got: Vec<(u64, usize)> = col.iter().map(|(v, i)| (v.to_bits(), *i)).collect();
            let mut want: Vec<(u64, usize)> = at[i].iter().map(|&x| (d.rows[x][c].to_bits(), x)).collect();
            got.sort_unstable();
            want.sort_unstable();
            ensure!(got == want, "presorted leaf at depth {} column {} does not hold exactly the routed rows", n.depth, c);
            ensure!(col.windows(2).all(|w| w[0].0 <= w[1].0), "presorted leaf at depth {} column {} not ascending", n.depth, c);
        }
    }
    ensure!(total == d.n(), "presorted leaves store {} rows of {}", total, d.n());
    Ok(())
}

pub fn c07(src: &mut Src, ctx: &mut Ctx) -> Res {
    let kind = src.draw(3);
    let mode = if src.chance(1, 4) { LabelMode::OneHot } else { LabelMode::Regression };
    let mut o = Opts::new(mode);
    o.deep = 4;
    o.bushy = 20;
    let d = gen_data(src, &o);
    let mut levels = gen_levels(src);
    if d.class == "deep" && src.chance(2, 3) || d.class == "bushy" && src.chance(4, 5) {
        levels = no_limit(src);
    }
    if d.class == "huge" {
        levels = levels.min(3);
    }
    ctx.describe(|| format!("kind {} levels {} {}", kind, levels, d.show()));
    ctx.label(d.class);
    let data = d.mt();
    if kind < 2 {
        let t = RegressionMultiTargetDecisionTree::new(data, config(d.k, levels, kind == 1)).root;
        let fl = Flat::new(&t, d.ncols())?;
        ctx.nontrivial = fl.internal() >= 2;
        ctx.label(if kind == 1 { "regression-mt" } else { "regression" });
        check_reg_leaves(&fl, &d)
    } else {
        let s = create_dataset_with_sorted_features(&data);
        let t = RegressionMultiTargetDecisionTreeNewPartition::new(s, config(d.k, levels, false)).root;
        let fl = Flat::new(&t, d.ncols())?;
        ctx.nontrivial = fl.internal() >= 2;
        ctx.label("presorted");
        check_presorted_leaves(&fl, &d)
    }
}

// ---------------------------------------------------------------- hand-made trees

/// A random well-formed tree whose leaves are produced by `leaf`; questions are arbitrary.
pub fn gen_tree<L: Leaf>(src: &mut Src, ncols: usize, depth: usize, leaf: &mut dyn FnMut(&mut Src) -> L) -> TreeNode<L> {
    if depth > 0 && src.chance(1, 60) {
        return gen_chain(src, ncols, leaf);
    }
    gen_bush(src, ncols, depth, leaf)
}

/// one long path of questions with a leaf on the other side of each
fn gen_chain<L: Leaf>(src: &mut Src, ncols: usize, leaf: &mut dyn FnMut(&mut Src) -> L) -> TreeNode<L> {
    let len = src.range(20, 300);
    let up = src.draw(3);
    let mut node = TreeNode::leaf_node(Question::new(0, 0.0), leaf(src));
    for i in 0..len {
        let col = src.draw(ncols as u64) as u32;
        let l = TreeNode::leaf_node(Question::new(0, 0.0), leaf(src));
        // nested intervals, so that rows go far down
        let step = (len - i) as f64 / 64.0;
        let (t, f, val) = match up {
            0 => (node, l, step - 3.0),
            1 => (l, node, 3.0 - step),
            _ if src.draw(2) == 0 => (node, l, step - 6.0),
            _ => (l, node, 6.0 - step),
        };
        node = TreeNode::new(Question::new(col, val), Box::new(t), Box::new(f));
    }
    node
}

fn gen_bush<L: Leaf>(src: &mut Src, ncols: usize, depth: usize, leaf: &mut dyn FnMut(&mut Src) -> L) -> TreeNode<L> {
    if depth == 0 || src.draw(5) == 0 {
        let l = leaf(src);
        return TreeNode::leaf_node(Question::new(0, 0.0), l);
    }
    let col = src.draw(ncols as u64) as u32;
    let val = match src.draw(4) {
        0 => src.zig(8) as f64,
        1 => src.zig(40) as f64 / 4.0,
        2 => ulps(1.0 + src.draw(3) as f64, src.zig(4)),
        _ => [0.0, -0.0, 1e300, -1e300, 5e-324, 0.1, 1.0 / 3.0, 16777217.0][src.draw(8) as usize],
    };
    let t = gen_bush(src, ncols, depth - 1, leaf);
    let f = gen_bush(src, ncols, depth - 1, leaf);
    TreeNode::new(Question::new(col, val), Box::new(t), Box::new(f))
}

pub fn hand_thresholds<L: Leaf>(n: &TreeNode<L>, out: &mut Vec<(usize, f64)>) {
    if let (Some(t), Some(f)) = (&n.true_branch, &n.false_branch) {
        out.push((n.question.column as usize, n.question.value));
        hand_thresholds(t, out);
        hand_thresholds(f, out);
    }
}

/// rows around the thresholds of a hand-made tree
pub fn gen_rows_for(src: &mut Src, thr: &[(usize, f64)], ncols: usize, n: usize) -> Vec<Vec<f64>> {
    let mut rows = vec![];
    for _ in 0..n {
        let mut r: Vec<f64> = (0..ncols).map(|_| src.zig(12) as f64 / 2.0).collect();
        if !thr.is_empty() {
            for _ in 0..ncols {
                let (c, v) = thr[src.draw(thr.len() as u64) as usize];
                match src.draw(5) {
                    0 => r[c] = v,
                    1 => r[c] = ulp_safe(v, 1),
                    2 => r[c] = ulp_safe(v, -1),
                    3 => r[c] = f64::INFINITY * if v > 0.0 { -1.0 } else { 1.0 },
                    _ => {}
                }
            }
        }
        rows.push(r);
    }
    rows
}

// ---------------------------------------------------------------- C08

fn reference_mse(pred: &[Vec<f64>], actual: &[Vec<f64>]) -> (f64, f64) {
    // (mse, slack)
    let mut tot = 0.0;
    let mut mag = 0.0f64;
    for (p, a) in pred.iter().zip(actual) {
        let k = a.len() as f64;
        let mut s = 0.0;
        for (x, y) in p.iter().zip(a) {
            s += (x - y) * (x - y);
            mag = mag.max(x.abs()).max(y.abs());
        }
        tot += s / k;
    }
    let mse = tot / pred.len() as f64;
    // predictions are means of up to 1e5 numbers: relative error a few 1e-12 of the magnitude
    (mse, 1e-9 * mse + 1e-11 * mag * (mse.sqrt() + 1e-11 * mag))
}

fn leaf_mean_predictions(fl: &Flat<RegressionLeaf>, rows: &[Vec<f64>]) -> Vec<Vec<f64>> {
    rows.iter()
        .map(|r| {
            let l = &fl.leaf(r).data.as_ref().unwrap().labels;
            let idx: Vec<usize> = (0..l.len()).collect();
            mean_labels(l, &idx)
        })
        .collect()
}

fn train_leaf_means(fl_routes: &[Vec<usize>], labels: &[Vec<f64>], leaf: usize) -> Vec<f64> {
    mean_labels(labels, &fl_routes[leaf])
}

pub fn c08(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.chance(1, 5) {
        return c08_hand(src, ctx);
    }
    let mode = match src.draw(4) {
        0 => LabelMode::Exact,
        1 => LabelMode::OneHot,
        _ => LabelMode::Regression,
    };
    let mut o = Opts::new(mode);
    o.inj = 40;
    o.wide_labels = false;
    o.bushy = 20;
    let d = gen_data(src, &o);
    let mut levels = gen_levels(src);
    if d.class == "bushy" {
        levels = no_limit(src);
    }
    if d.class == "huge" {
        levels = levels.min(2);
    }
    let mt = src.chance(1, 3);
    let q = gen_queries(src, &d, 12);
    let ql: Vec<Vec<f64>> = q.iter().map(|_| {
        let b = src.draw(d.n() as u64) as usize;
        let s = src.zig(5) as f64;
        d.labels[b].iter().map(|v| v + s).collect()
    }).collect();
    ctx.describe(|| format!("levels {} multi-threading {} queries {:?} labels {:?} {}", levels, mt, clip(&format!("{:?}", q), 200), clip(&format!("{:?}", ql), 200), d.show()));
    ctx.label(d.class);
    let data = d.mt();
    let test = make_mt(&q, &ql);
    let sorted = create_dataset_with_sorted_features(&data);
    let presorted = Box::new(RegressionMultiTargetDecisionTreeNewPartition::new(sorted, config(d.k, levels, mt)).root);
    let tree = Box::new(RegressionMultiTargetDecisionTree::new(data.clone(), config(d.k, levels, mt)).root);
    let fl = Flat::new(&tree, d.ncols())?;
    let fp = Flat::new(&presorted, d.ncols())?;
    let rt = routes(&fl, &d.rows);
    let rp = routes(&fp, &d.rows);
    let huge = d.class == "huge"; // scoring a large leaf on a large set is quadratic
    for (name, rows, labels, set) in [("test", &q, &ql, &test), ("training", &d.rows, &d.labels, &data)] {
        if huge && name == "training" {
            continue;
        }
        // the leaf's training rows, as determined by routing the training set
        let pred: Vec<Vec<f64>> = rows.iter().map(|r| train_leaf_means(&rt, &d.labels, fl.route(r))).collect();
        let (want, slack) = reference_mse(&pred, labels);
        let got = regression::calculate_overall_mean_squared_error(set, &tree);
        ensure!(rel_close(got, want, slack), "{} MSE reported {:e}, leaf means give {:e}", name, got, want);
        let pred: Vec<Vec<f64>> = rows.iter().map(|r| train_leaf_means(&rp, &d.labels, fp.route(r))).collect();
        let (want, slack) = reference_mse(&pred, labels);
        let got = regression::calculate_overall_mean_squared_error_new_partition(set, &presorted);
        ensure!(rel_close(got, want, slack), "{} MSE of the presorted tree reported {:e}, leaf means give {:e}", name, got, want);
    }
    ctx.nontrivial = fl.internal() >= 1 && q.len() >= 2;
    if huge {
        return Ok(());
    }
    // never worse on the training set with more levels
    let more = levels.saturating_add(1 + src.draw(3) as u32);
    let e0 = regression::calculate_overall_mean_squared_error(&data, &tree);
    let t2 = Box::new(RegressionMultiTargetDecisionTree::new(data.clone(), config(d.k, more, mt)).root);
    let e1 = regression::calculate_overall_mean_squared_error(&data, &t2);
    let mag = d.labels.iter().flatten().fold(0.0f64, |a, b| a.max(b.abs()));
    ensure!(e1 <= e0 + 1e-9 * e0 + 1e-12 * mag * mag, "training MSE grew from {:e} to {:e} when max_levels went from {} to {}", e0, e1, levels, more);
    if d.inj.is_some() && d.exact && d.n() <= 220 {
        ctx.label("injective-exact");
        let t3 = Box::new(RegressionMultiTargetDecisionTree::new(data.clone(), config(d.k, d.n() as u32 + 1, src.chance(1, 2))).root);
        let e = regression::calculate_overall_mean_squared_error(&data, &t3);
        ensure!(e <= 1e-24 * mag * mag, "column {} separates all rows and the level limit does not bind, but the training MSE is {:e}", d.inj.unwrap(), e);
    }
    Ok(())
}

/// how many test rows
fn gen_test_size(src: &mut Src) -> usize {
    match src.weighted(&[8000, 800, 120, 3]) {
        0 => src.range(1, 20),
        1 => src.range(100, 900),
        2 => src.range(1000, 6000),
        _ => src.range(65_500, 66_500),
    }
}

fn c08_hand(src: &mut Src, ctx: &mut Ctx) -> Res {
    let ncols = src.range(1, 4);
    let k = src.range(1, 5);
    let depth = src.range(0, 5);
    let mut leaf = |src: &mut Src| {
        let m = src.range(1, 6);
        let labels: Vec<Vec<f64>> = (0..m).map(|_| (0..k).map(|_| src.zig(41) as f64 / 4.0).collect()).collect();
        let rows: Vec<Vec<f64>> = (0..m).map(|_| vec![0.0; ncols]).collect();
        RegressionLeaf { data: Some(make_mt(&rows, &labels)) }
    };
    let root = Box::new(gen_tree(src, ncols, depth, &mut leaf));
    let mut th = vec![];
    hand_thresholds(&root, &mut th);
    let nq = gen_test_size(src);
    let q = gen_rows_for(src, &th, ncols, nq);
    let ql: Vec<Vec<f64>> = q.iter().map(|_| (0..k).map(|_| src.zig(41) as f64 / 4.0).collect()).collect();
    let fl = Flat::new(&root, ncols)?;
    ctx.label("hand-made");
    ctx.nontrivial = fl.internal() >= 1;
    if nq >= 1000 {
        ctx.label("test rows>=1000");
    }
    ctx.describe(|| format!("hand-made tree {:?} rows {} labels {}", clip(&format!("{:?}", root), 300), clip(&format!("{:?}", q), 300), clip(&format!("{:?}", ql), 200)));
    let (want, slack) = reference_mse(&leaf_mean_predictions(&fl, &q), &ql);
    let got = regression::calculate_overall_mean_squared_error(&make_mt(&q, &ql), &root);
    ensure!(rel_close(got, want, slack), "MSE reported {:e}, leaf means give {:e}", got, want);
    Ok(())
}

// ---------------------------------------------------------------- C09

fn majority(labels: &[Vec<f64>]) -> usize {
    let k = labels[0].len();
    let counts: Vec<usize> = (0..k).map(|c| labels.iter().filter(|l| l[c] == 1.0).count()).collect();
    let m = *counts.iter().max().unwrap();
    counts.iter().position(|&c| c == m).unwrap()
}

fn onehot(k: usize, c: usize) -> Vec<f64> {
    let mut v = vec![0.0; k];
    v[c] = 1.0;
    v
}

/// A test label for a row that is classified `w`: right, of any class, or no one-hot vector at all.
pub fn test_label(src: &mut Src, w: &[f64]) -> Vec<f64> {
    let k = w.len();
    match src.weighted(&[8, 8, 1, 1, 1]) {
        0 => w.to_vec(),
        1 => onehot(k, src.draw(k as u64) as usize),
        2 => {
            let mut l = w.to_vec();
            l[src.draw(k as u64) as usize] = [1.0, 0.5, 1e-9, -1.0, 0.0, 2.0][src.draw(6) as usize];
            l
        }
        3 => {
            let mut l = w.to_vec();
            let i = src.draw(k as u64) as usize;
            l[i] = ulps(if l[i] == 0.0 { 0.0 } else { 1.0 }, 1 - 2 * src.draw(2) as i64);
            l
        }
        _ => (0..k).map(|_| src.draw(2) as f64).collect(),
    }
}

pub fn c09(src: &mut Src, ctx: &mut Ctx) -> Res {
    let hand = src.chance(1, 4);
    let (root, ncols, k, q, d): (Box<TreeNode<RegressionLeaf>>, usize, usize, Vec<Vec<f64>>, Option<Data>);
    if hand {
        ncols = src.range(1, 4);
        let classes = if src.chance(1, 10) { src.range(10, 60) } else { src.range(1, 7) };
        let depth = src.range(0, 5);
        let giant = src.chance(1, 300);
        let big = src.chance(1, 20);
        let depth = if giant { depth.min(1) } else { depth };
        k = if giant { classes.min(4) } else { classes };
        let kk = k;
        let mut leaf = |src: &mut Src| {
            let m = if giant { src.range(65_500, 140_000) } else if big { src.range(250, 600) } else { src.range(1, 9) };
            // the share of the first class varies from leaf to leaf
            let one = if big || giant { src.draw(64) } else { 0 };
            let labels: Vec<Vec<f64>> = (0..m).map(|_| onehot(kk, if src.draw(64) < one { 0 } else { src.draw(kk as u64) as usize })).collect();
            let rows: Vec<Vec<f64>> = (0..m).map(|_| vec![0.0; ncols]).collect();
            RegressionLeaf { data: Some(make_mt(&rows, &labels)) }
        };
        root = Box::new(gen_tree(src, ncols, depth, &mut leaf));
        let mut th = vec![];
        hand_thresholds(&root, &mut th);
        let nq = if giant || big { src.range(1, 20) } else { gen_test_size(src) };
        q = gen_rows_for(src, &th, ncols, nq);
        d = None;
        ctx.label("hand-made");
        if nq >= 1000 {
            ctx.label("test rows>=1000");
        }
        ctx.describe(|| format!("hand-made tree {:?} rows {}", clip(&format!("{:?}", root), 300), clip(&format!("{:?}", q), 300)));
    } else {
        let mut o = Opts::new(LabelMode::OneHot);
        o.inj = 40;
        let dd = gen_data(src, &o);
        let mut levels = gen_levels(src);
        if dd.class == "huge" {
            levels = levels.min(3);
        }
        let mt = src.chance(1, 2);
        ctx.label(dd.class);
        root = Box::new(RegressionMultiTargetDecisionTree::new(dd.mt(), config(dd.k, levels, mt)).root);
        ncols = dd.ncols();
        k = dd.k;
        q = gen_queries(src, &dd, 20);
        ctx.describe(|| format!("levels {} queries {:?} {}", levels, clip(&format!("{:?}", q), 200), dd.show()));
        if dd.inj.is_some() && dd.class != "huge" {
            ctx.label("injective");
            let full = Box::new(RegressionMultiTargetDecisionTree::new(dd.mt(), config(dd.k, dd.n() as u32 + 1, mt)).root);
            let acc = classification::calculate_accuracy(&dd.mt(), &full);
            ensure!(acc == 1.0, "column {} separates all rows and the level limit does not bind, but training accuracy is {}", dd.inj.unwrap(), acc);
        }
        d = Some(dd);
    }
    let fl = Flat::new(&root, ncols)?;
    // class of each leaf: for trained trees from the training rows routed there
    let leaf_class: Vec<usize> = match &d {
        Some(d) => {
            let rt = routes(&fl, &d.rows);
            (0..fl.nodes.len())
                .map(|i| if fl.nodes[i].leaf && !rt[i].is_empty() { majority(&rt[i].iter().map(|&x| d.labels[x].clone()).collect::<Vec<_>>()) } else { 0 })
                .collect()
        }
        None => (0..fl.nodes.len()).map(|i| if fl.nodes[i].leaf { majority(&fl.leaves[i].unwrap().data.as_ref().unwrap().labels) } else { 0 }).collect(),
    };
    let want: Vec<Vec<f64>> = q.iter().map(|r| onehot(k, leaf_class[fl.route(r)])).collect();
    for (r, w) in q.iter().zip(&want) {
        let got = classification::predict_class(r, &root);
        ensure!(got == *w, "row {:?} classified {:?}, majority of its leaf is {:?}", r, got, w);
    }
    ctx.nontrivial = fl.internal() >= 1 && q.len() >= 2;
    let labels: Vec<Vec<f64>> = want.iter().map(|w| test_label(src, w)).collect();
    let correct = want.iter().zip(&labels).filter(|(a, b)| a == b).count();
    let got = classification::calculate_accuracy(&make_mt(&q, &labels), &root);
    let w = correct as f64 / q.len() as f64;
    ensure!((got - w).abs() < 1e-12, "accuracy {} but {} of {} rows are classified as labelled", got, correct, q.len());
    // more rows than a 24-bit mantissa counts
    if hand && ncols == 1 && k <= 4 && q.len() <= 20 && fl.leaves.iter().flatten().all(|l| l.data.as_ref().unwrap().labels.len() <= 9) && src.chance(1, 500) {
        ctx.label("test rows>2^24");
        let n = (1 << 24) + 1 + src.draw(100) as usize;
        let _heavy = heavy();
        let got = classification::calculate_accuracy(&replicated(&q, &want, n), &root);
        ensure!((got - 1.0).abs() < 1e-12, "accuracy {} but all of {} rows are classified as labelled", got, n);
    }
    if let Some(d) = d.as_ref().filter(|d| d.class != "huge") {
        let correct = (0..d.n()).filter(|&i| onehot(k, leaf_class[fl.route(&d.rows[i])]) == d.labels[i]).count();
        let w = correct as f64 / d.n() as f64;
        let got = classification::calculate_accuracy(&d.mt(), &root);
        ensure!((got - w).abs() < 1e-12, "training accuracy {} but {} of {} rows are classified as labelled", got, correct, d.n());
        if correct < d.n() {
            ctx.label("impure");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C11

pub fn c11(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mode = if src.chance(1, 3) { LabelMode::OneHot } else { LabelMode::Regression };
    let mut o = Opts::new(mode);
    o.sizes = [200, 400, 250, 50, 30, 25, 3];
    o.deep = 4;
    o.bushy = 15;
    let d = gen_data(src, &o);
    let mut levels = gen_levels(src);
    if d.class == "deep" && src.chance(2, 3) || d.class == "bushy" && src.chance(4, 5) {
        levels = no_limit(src);
    }
    if d.class == "huge" {
        levels = levels.min(3);
    }
    let mt = src.chance(1, 4);
    ctx.describe(|| format!("levels {} {}", levels, d.show()));
    ctx.label(d.class);
    let data = d.mt();
    let sorted = create_dataset_with_sorted_features(&data);
    // the presorted form
    ensure!(sorted.labels.len() == d.n(), "presorted form has {} labels", sorted.labels.len());
    for i in 0..d.n() {
        ensure!(bits(sorted.labels[i]) == bits(&d.labels[i]), "presorted form label {} is {:?}", i, sorted.labels[i]);
    }
    ensure!(sorted.sorted_feature_columns.len() == d.ncols(), "presorted form has {} columns", sorted.sorted_feature_columns.len());
    for c in 0..d.ncols() {
        let mut want: Vec<usize> = (0..d.n()).collect();
        want.sort_by(|&a, &b| d.rows[a][c].partial_cmp(&d.rows[b][c]).unwrap().then(a.cmp(&b)));
        let want: Vec<(u64, usize)> = want.into_iter().map(|i| (d.rows[i][c].to_bits(), i)).collect();
        let got: Vec<(u64, usize)> = sorted.sorted_feature_columns[c].iter().map(|(v, i)| (v.to_bits(), *i)).collect();
        ensure!(got == want, "presorted column {} is {} for values {}", c, clip(&format!("{:?}", sorted.sorted_feature_columns[c]), 200), clip(&format!("{:?}", d.rows.iter().map(|r| r[c]).collect::<Vec<_>>()), 200));
    }
    let b = Box::new(RegressionMultiTargetDecisionTreeNewPartition::new(sorted, config(d.k, levels, mt)).root);
    let a = Box::new(RegressionMultiTargetDecisionTree::new(data.clone(), config(d.k, levels, mt)).root);
    let fa = Flat::new(&a, d.ncols())?;
    let fb = Flat::new(&b, d.ncols())?;
    let mut tie = false;
    let mut st = vec![(0usize, 0usize, (0..d.n()).collect::<Vec<usize>>())];
    while let Some((i, j, idx)) = st.pop() {
        let (x, y) = (&fa.nodes[i], &fb.nodes[j]);
        if x.leaf && y.leaf {
            let la = &fa.leaves[i].unwrap().data.as_ref().unwrap().labels;
            let lb = &fb.leaves[j].unwrap().data.as_ref().unwrap().labels;
            ensure!(multiset(la.iter()) == multiset(lb.iter().copied()), "corresponding leaves at depth {} hold different labels: {} and {}", x.depth, clip(&format!("{:?}", la), 200), clip(&format!("{:?}", lb), 200));
            let ra = &fa.leaves[i].unwrap().data.as_ref().unwrap().feature_rows;
            let cb = &fb.leaves[j].unwrap().data.as_ref().unwrap().sorted_feature_columns;
            for c in 0..d.ncols() {
                let mut va: Vec<u64> = ra.iter().map(|r| r[c].to_bits()).collect();
                let mut vb: Vec<u64> = cb[c].iter().map(|p| p.0.to_bits()).collect();
                va.sort_unstable();
                vb.sort_unstable();
                ensure!(va == vb, "corresponding leaves at depth {} hold different values in column {}", x.depth, c);
            }
            continue;
        }
        if !x.leaf && !y.leaf && x.col == y.col && x.val == y.val {
            let (t, f): (Vec<usize>, Vec<usize>) = idx.iter().partition(|&&r| d.rows[r][x.col] >= x.val);
            st.push((x.t, y.t, t));
            st.push((x.f, y.f, f));
            continue;
        }
        ensure!(!idx.is_empty(), "trees differ at an empty node");
        let tol = 2.0 * gain_tol(&d.labels, &idx);
        let ga = if x.leaf { 0.0 } else { gain_of(&d.rows, &d.labels, &idx, x.col, x.val).0 };
        let gb = if y.leaf { 0.0 } else { gain_of(&d.rows, &d.labels, &idx, y.col, y.val).0 };
        ensure!((ga - gb).abs() <= tol, "standard and presorted trees differ at depth {}: {:?} (gain {:e}) and {:?} (gain {:e})", x.depth, x, ga, y, gb);
        if x.leaf != y.leaf {
            ensure!(x.depth < levels, "one builder stops at the level limit and the other does not");
        }
        tie = true;
    }
    ctx.nontrivial = fa.internal() >= 2;
    if tie {
        ctx.label("rounding-tie");
    } else {
        let q = gen_queries(src, &d, 6);
        let ql: Vec<Vec<f64>> = q.iter().map(|_| d.labels[src.draw(d.n() as u64) as usize].clone()).collect();
        let test = make_mt(&q, &ql);
        let ea = regression::calculate_overall_mean_squared_error(&test, &a);
        let eb = regression::calculate_overall_mean_squared_error_new_partition(&test, &b);
        let mag = d.labels.iter().flatten().fold(0.0f64, |a, b| a.max(b.abs()));
        ensure!(rel_close(ea, eb, 1e-9 * ea + 1e-11 * mag * (ea.sqrt() + 1e-11 * mag)), "equal trees report different errors {:e} and {:e}", ea, eb);
    }
    Ok(())
}
