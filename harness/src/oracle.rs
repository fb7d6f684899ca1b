//! Independent reference computations: brute-force variance gains, tree walking, tree validation.
use crate::engine::Res;
use multi_target_decision_tree::leaf::Leaf;
use multi_target_decision_tree::node::TreeNode;

pub const EPS: f64 = f64::EPSILON;

#[derive(Clone, Debug)]
pub struct FNode {
    pub leaf: bool,
    pub col: usize,
    pub val: f64,
    pub t: usize,
    pub f: usize,
    pub depth: u32,
}

pub struct Flat<'a, L> {
    pub nodes: Vec<FNode>,
    pub leaves: Vec<Option<&'a L>>,
}

impl<'a, L: Leaf> Flat<'a, L> {
    pub fn new(root: &'a TreeNode<L>, ncols: usize) -> Result<Flat<'a, L>, String> {
        let mut fl = Flat { nodes: vec![], leaves: vec![] };
        let mut stack: Vec<(&'a TreeNode<L>, u32, Option<(usize, bool)>)> = vec![(root, 0, None)];
        while let Some((n, depth, parent)) = stack.pop() {
            let id = fl.nodes.len();
            if let Some((p, is_true)) = parent {
                if is_true {
                    fl.nodes[p].t = id
                } else {
                    fl.nodes[p].f = id
                }
            }
            match (&n.true_branch, &n.false_branch) {
                (Some(t), Some(f)) => {
                    let col = n.question.column as usize;
                    if col >= ncols {
                        return Err(format!("a tree question refers to column {} of {}", col, ncols));
                    }
                    fl.nodes.push(FNode { leaf: false, col, val: n.question.value, t: 0, f: 0, depth });
                    fl.leaves.push(None);
                    stack.push((f, depth + 1, Some((id, false))));
                    stack.push((t, depth + 1, Some((id, true))));
                }
                (None, None) => {
                    let l = match &n.leaf {
                        Some(l) => l,
                        None => return Err("a tree node has neither branches nor a leaf".into()),
                    };
                    fl.nodes.push(FNode { leaf: true, col: 0, val: 0.0, t: 0, f: 0, depth });
                    fl.leaves.push(Some(l));
                }
                _ => return Err("a tree node has only one branch".into()),
            }
        }
        Ok(fl)
    }
    pub fn route(&self, row: &[f64]) -> usize {
        let mut i = 0;
        while !self.nodes[i].leaf {
            let n = &self.nodes[i];
            i = if row[n.col] >= n.val { n.t } else { n.f };
        }
        i
    }
    pub fn leaf(&self, row: &[f64]) -> &'a L {
        self.leaves[self.route(row)].unwrap()
    }
    pub fn internal(&self) -> usize {
        self.nodes.iter().filter(|n| !n.leaf).count()
    }
    pub fn depth(&self) -> u32 {
        self.nodes.iter().map(|n| n.depth).max().unwrap()
    }
}

/// rounding slack of a gain computed from `n` labels: every accumulated sum of squares is at most
/// n * max^2, each of the n additions and the subtraction of n*mean^2 adds a few ulps of that.
pub fn gain_tol(labels: &[Vec<f64>], idx: &[usize]) -> f64 {
    let k = labels[idx[0]].len();
    let mut s = 0.0;
    for t in 0..k {
        let m = idx.iter().map(|&i| labels[i][t].abs()).fold(0.0, f64::max);
        s += m * m;
    }
    64.0 * EPS * (idx.len() as f64 + 16.0 + k as f64) * s
}

pub fn max_abs_sum(labels: &[Vec<f64>], idx: &[usize]) -> f64 {
    let k = labels[idx[0]].len();
    (0..k).map(|t| idx.iter().map(|&i| labels[i][t].abs()).fold(0.0, f64::max)).sum()
}

fn centered(labels: &[Vec<f64>], idx: &[usize]) -> Vec<Vec<f64>> {
    let k = labels[idx[0]].len();
    let n = idx.len() as f64;
    let mut mean = vec![0.0; k];
    for &i in idx {
        for t in 0..k {
            mean[t] += labels[i][t] / n;
        }
    }
    idx.iter().map(|&i| (0..k).map(|t| labels[i][t] - mean[t]).collect()).collect()
}

pub struct Best {
    pub gain: f64,
    pub col: usize,
    pub val: f64,
}

/// Largest achievable reduction of summed label variance over all columns and thresholds.
pub fn best_gain(rows: &[Vec<f64>], labels: &[Vec<f64>], idx: &[usize]) -> Best {
    let n = idx.len();
    let k = labels[idx[0]].len();
    let cen = centered(labels, idx);
    let mut best = Best { gain: 0.0, col: 0, val: 0.0 };
    let ncols = rows[idx[0]].len();
    let mut ord: Vec<usize> = (0..n).collect();
    let mut s = vec![0.0; k];
    for c in 0..ncols {
        ord.sort_unstable_by(|&a, &b| rows[idx[a]][c].partial_cmp(&rows[idx[b]][c]).unwrap());
        s.iter_mut().for_each(|x| *x = 0.0);
        for (p, &o) in ord.iter().enumerate() {
            if p > 0 && rows[idx[o]][c] != rows[idx[ord[p - 1]]][c] {
                let d = p as f64 * (n - p) as f64;
                let g: f64 = s.iter().map(|x| x * x / d).sum();
                if g > best.gain {
                    best = Best { gain: g, col: c, val: rows[idx[o]][c] };
                }
            }
            for t in 0..k {
                s[t] += cen[o][t];
            }
        }
    }
    best
}

/// (gain, rows on the false side, rows on the true side) of one question
pub fn gain_of(rows: &[Vec<f64>], labels: &[Vec<f64>], idx: &[usize], col: usize, val: f64) -> (f64, usize, usize) {
    let k = labels[idx[0]].len();
    let cen = centered(labels, idx);
    let mut s = vec![0.0; k];
    let mut nl = 0;
    for (p, &i) in idx.iter().enumerate() {
        if rows[i][col] < val {
            nl += 1;
            for t in 0..k {
                s[t] += cen[p][t];
            }
        }
    }
    let nr = idx.len() - nl;
    if nl == 0 || nr == 0 {
        return (0.0, nl, nr);
    }
    let d = nl as f64 * nr as f64;
    (s.iter().map(|x| x * x / d).sum(), nl, nr)
}

pub struct Growth {
    /// training rows per leaf node
    pub leaf_rows: Vec<(usize, Vec<usize>)>,
    pub max_gain_over_tol: bool,
}

/// Check the greedy-growth contract of a tree against its training rows and labels.
/// `extra` is additional slack on a node's gain (for labels only known up to rounding).
pub fn check_growth<L: Leaf>(
    fl: &Flat<L>,
    rows: &[Vec<f64>],
    labels: &[Vec<f64>],
    max_levels: u32,
    exact: bool,
    extra: &dyn Fn(&[usize]) -> f64,
) -> Result<Growth, String> {
    let mut g = Growth { leaf_rows: vec![], max_gain_over_tol: false };
    let mut stack = vec![(0usize, (0..rows.len()).collect::<Vec<usize>>())];
    while let Some((id, idx)) = stack.pop() {
        let nd = &fl.nodes[id];
        if nd.depth > max_levels {
            return Err(format!("a node at depth {} exceeds max_levels {}", nd.depth, max_levels));
        }
        if nd.leaf {
            if nd.depth < max_levels {
                let b = best_gain(rows, labels, &idx);
                let tol = gain_tol(labels, &idx) + extra(&idx);
                if b.gain > tol {
                    return Err(format!(
                        "leaf at depth {} (max_levels {}) although splitting its {} rows on column {} >= {:?} reduces the variance by {:e} (slack {:e})",
                        nd.depth, max_levels, idx.len(), b.col, b.val, b.gain, tol
                    ));
                }
            }
            g.leaf_rows.push((id, idx));
            continue;
        }
        if nd.depth >= max_levels {
            return Err(format!("an internal node at depth {} although max_levels is {}", nd.depth, max_levels));
        }
        let b = best_gain(rows, labels, &idx);
        let tol = gain_tol(labels, &idx) + extra(&idx);
        let (gq, nl, nr) = gain_of(rows, labels, &idx, nd.col, nd.val);
        if nl == 0 || nr == 0 {
            return Err(format!("question column {} >= {:?} at depth {} leaves one side empty ({} / {})", nd.col, nd.val, nd.depth, nl, nr));
        }
        if gq < b.gain - 2.0 * tol {
            return Err(format!(
                "node at depth {} with {} rows asks column {} >= {:?} (variance reduction {:e}) but column {} >= {:?} gives {:e} (slack {:e})",
                nd.depth, idx.len(), nd.col, nd.val, gq, b.col, b.val, b.gain, 2.0 * tol
            ));
        }
        if b.gain > 4.0 * tol {
            g.max_gain_over_tol = true;
        }
        if exact && idx.iter().all(|&i| labels[i] == labels[idx[0]]) {
            return Err(format!("node at depth {} splits {} rows that all have the same label", nd.depth, idx.len()));
        }
        if !idx.iter().any(|&i| rows[i][nd.col] == nd.val) {
            return Err(format!("threshold {:?} at depth {} is not a value of column {} among the node's rows", nd.val, nd.depth, nd.col));
        }
        let (t, f): (Vec<usize>, Vec<usize>) = idx.iter().partition(|&&i| rows[i][nd.col] >= nd.val);
        stack.push((nd.t, t));
        stack.push((nd.f, f));
    }
    Ok(g)
}

pub fn zero(_: &[usize]) -> f64 {
    0.0
}

/// Trees equal bit for bit in structure and questions; leaves compared by `eq`.
pub fn same_tree<L: Leaf, M: Leaf>(a: &Flat<L>, b: &Flat<M>, eq: &dyn Fn(&L, &M) -> Res) -> Res {
    let mut st = vec![(0usize, 0usize)];
    while let Some((i, j)) = st.pop() {
        let (x, y) = (&a.nodes[i], &b.nodes[j]);
        if x.leaf != y.leaf {
            return Err(format!("one tree has a leaf where the other has a question, at depth {}", x.depth));
        }
        if x.leaf {
            eq(a.leaves[i].unwrap(), b.leaves[j].unwrap())?;
        } else {
            if x.col != y.col || x.val != y.val {
                return Err(format!("questions differ at depth {}: column {} >= {:?} and column {} >= {:?}", x.depth, x.col, x.val, y.col, y.val));
            }
            st.push((x.t, y.t));
            st.push((x.f, y.f));
        }
    }
    Ok(())
}

pub fn mean_labels(labels: &[Vec<f64>], idx: &[usize]) -> Vec<f64> {
    let k = labels[idx[0]].len();
    (0..k).map(|t| idx.iter().map(|&i| labels[i][t]).sum::<f64>() / idx.len() as f64).collect()
}

pub fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}
/// sorted multiset of vectors, for order-free comparison (0.0 and -0.0 kept apart)
pub fn multiset<'a, I: Iterator<Item = &'a Vec<f64>>>(it: I) -> Vec<Vec<u64>> {
    let mut v: Vec<Vec<u64>> = it.map(|r| bits(r)).collect();
    v.sort();
    v
}
pub fn rel_close(a: f64, b: f64, tol_abs: f64) -> bool {
    a == b || (a - b).abs() <= tol_abs
}
