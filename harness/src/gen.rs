//! Generators: datasets, query rows, configurations, hand-made trees.
use crate::engine::*;
use common::datasets::MultiTargetDataSet;
use multi_target_decision_tree::decision_trees::TreeConfig;
use multi_target_decision_tree::split_finder::{SplitFinder, SplitMetric};

#[derive(Clone, Debug)]
pub struct Data {
    pub rows: Vec<Vec<f64>>,
    pub labels: Vec<Vec<f64>>,
    pub k: usize,
    /// labels are multiples of 1/8 of modest size (times a power of two): all label sums are exact
    pub exact: bool,
    pub inj: Option<usize>,
    pub class: &'static str,
}

impl Data {
    pub fn n(&self) -> usize {
        self.rows.len()
    }
    pub fn ncols(&self) -> usize {
        self.rows[0].len()
    }
    pub fn mt(&self) -> MultiTargetDataSet {
        make_mt(&self.rows, &self.labels)
    }
    pub fn show(&self) -> String {
        clip(
            &format!("{} n={} cols={} k={} rows={:?} labels={:?}", self.class, self.n(), self.ncols(), self.k, self.rows, self.labels),
            700,
        )
    }
}

pub fn columns(rows: &[Vec<f64>], ncols: usize) -> Vec<Vec<f64>> {
    (0..ncols).map(|c| rows.iter().map(|r| r[c]).collect()).collect()
}

pub fn make_mt(rows: &[Vec<f64>], labels: &[Vec<f64>]) -> MultiTargetDataSet {
    let nc = rows.first().map_or(0, |r| r.len());
    MultiTargetDataSet { feature_rows: rows.to_vec(), feature_columns: columns(rows, nc), labels: labels.to_vec() }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum LabelMode {
    /// any kind of finite regression labels
    Regression,
    /// only labels whose sums are exact in f64
    Exact,
    /// one-hot classes
    OneHot,
}

#[derive(Clone, Copy)]
pub struct Opts {
    pub mode: LabelMode,
    /// weights of size classes: tiny, small, medium, large, wide, many targets, huge
    pub sizes: [u64; 7],
    pub inj: u64, // chance in 100 of an injective column
    pub wide_labels: bool,
    /// now and then one-hot labels of a single class
    pub one_class: bool,
    /// chance in 100 of regression labels that make the tree a chain with a level per row
    pub deep: u64,
    /// chance in 100,000 of a data set whose full tree has some ten thousand nodes
    pub bushy: u64,
}

pub const SIZES_TREE: [u64; 7] = [200, 400, 250, 40, 30, 25, 3];
pub const SIZES_BOOST: [u64; 7] = [500, 1000, 300, 24, 20, 24, 3];
pub const SIZE_NAMES: [&str; 7] = ["tiny", "small", "medium", "large", "wide", "many-targets", "huge"];

impl Opts {
    pub fn new(mode: LabelMode) -> Self {
        Opts { mode, sizes: SIZES_TREE, inj: 25, wide_labels: true, one_class: false, deep: 0, bushy: 0 }
    }
}

struct Col {
    kind: usize,
    param: u64,
}

const SPECIAL: [f64; 12] = [
    0.0, -0.0, 1.0, -1.0, f64::MIN_POSITIVE, -f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::MIN, f64::EPSILON, 1e300, -1e300,
];

fn finite_bits(v: u64) -> f64 {
    let f = f64::from_bits(v);
    if f.is_finite() {
        f
    } else {
        f64::from_bits(v & !(1 << 62))
    }
}

pub fn ulps(x: f64, k: i64) -> f64 {
    // step k representable values away (x finite, away from zero)
    if x == 0.0 {
        return f64::from_bits(k.unsigned_abs()) * if k < 0 { -1.0 } else { 1.0 };
    }
    let b = x.to_bits() as i64;
    f64::from_bits((b + if x > 0.0 { k } else { -k }) as u64)
}

fn cell(src: &mut Src, c: &Col, row: usize, n: usize, first: f64) -> f64 {
    match c.kind {
        0 => src.draw(4) as f64,
        1 => src.draw(2) as f64,
        2 => src.zig(101) as f64,
        3 => src.zig(64) as f64 / 8.0,
        4 => {
            let v = src.draw(1 << 53);
            let m = (v >> 1) as f64 / (1u64 << 52) as f64 * 100.0;
            if v & 1 == 1 {
                -m
            } else {
                m
            }
        }
        5 => {
            src.draw(1);
            zig(c.param % 7) as f64 * 1.5
        }
        6 => {
            let v = src.draw(0);
            if v % 4 == 0 {
                SPECIAL[(v / 4 % 12) as usize]
            } else {
                finite_bits(v)
            }
        }
        7 => {
            let base = [1.0, 0.1, 1e10, 16777216.0, -3.3, 1e-5][(c.param % 6) as usize];
            ulps(base, src.zig(6))
        }
        8 => {
            let v = src.draw(30);
            if v < 20 {
                0.0
            } else {
                (v - 19) as f64
            }
        }
        9 => {
            src.draw(1);
            let step = 1 + (c.param / 2 % 3) as usize;
            let r = (row / step) as f64;
            if c.param % 2 == 0 {
                r
            } else {
                (n - row) as f64 * 0.5
            }
        }
        10 => {
            // strongly related to the first column
            let e = src.draw(8);
            let b = first * 2.0 + 1.0;
            if e == 7 && b.is_finite() {
                -first
            } else if b.is_finite() {
                b
            } else {
                first
            }
        }
        11 => src.zig(40) as f64 + [16777216.0, 1099511627776.0, -33554432.0, 2147483648.0][(c.param % 4) as usize],
        12 => src.zig(2000) as f64 / 100.0,
        _ => {
            let p = 256 + (c.param % 3) * 300;
            src.draw(p) as f64
        }
    }
}

struct Tgt {
    kind: usize,
    param: u64,
    col: usize,
}

fn label_cell(src: &mut Src, t: &Tgt, rows: &[Vec<f64>], row: usize, first: f64) -> f64 {
    let thr = rows[(t.param as usize / 16) % rows.len()][t.col];
    let hi = rows[row][t.col] >= thr;
    match t.kind {
        0 => src.zig(7) as f64,
        1 => src.draw(2) as f64,
        2 => {
            src.draw(1);
            let a = (t.param % 5) as f64 - 2.0;
            if hi {
                a + 1.0 + (t.param % 3) as f64
            } else {
                a
            }
        }
        3 => src.zig(64) as f64 / 8.0,
        4 => {
            let v = src.draw(16);
            (if hi { 3.0 } else { 0.0 }) + zig(v % 4) as f64 / 4.0
        }
        5 => {
            src.draw(1);
            zig(t.param % 9) as f64
        }
        6 => {
            let v = src.draw(20);
            if v == 19 {
                100.0
            } else {
                0.0
            }
        }
        7 => {
            let v = src.draw(6);
            if v == 5 {
                first
            } else {
                -first * 2.0
            }
        }
        // kinds below are not "exact"
        8 => {
            let v = src.draw(1 << 53);
            let m = (v >> 1) as f64 / (1u64 << 52) as f64 * 10.0;
            if v & 1 == 1 {
                -m
            } else {
                m
            }
        }
        9 => 1000.0 + src.zig(2000) as f64 / 100.0,
        10 => {
            let v = src.draw(2000);
            (if hi { 5.5 } else { 0.1 }) + v as f64 / 700.0
        }
        11 => {
            let v = src.draw(40);
            3f64.powi(v as i32 % 20) * if v % 2 == 0 { 1.0 } else { -1.0 }
        }
        12 => {
            src.draw(1);
            // long chains of splits, one row at a time
            if t.param % 2 == 0 { 2f64.powi((row % 40) as i32) } else { 2f64.powi((row % 380) as i32 - 150) }
        }
        _ => 0.1 * src.zig(30) as f64,
    }
}

/// Data whose full tree is wide and of moderate depth: thousands of leaves (now and then more nodes
/// than a 16-bit index can name), nearly one per row.
fn gen_bushy(src: &mut Src, onehot: bool) -> Data {
    let n = match src.weighted(&[6, 3, 1]) {
        0 => src.range(500, 5_000),
        1 => src.range(5_000, 18_000),
        _ => src.range(32_700, 36_000),
    };
    // (trees of one-hot labels in runs are chains)
    let n = if onehot { n / 20 + 20 } else { n };
    // a permutation of 0..65537 without 0: distinct values in no order
    let step = src.range(1, 65_536);
    let offset = src.draw(2) as f64 * -40_000.0;
    let other = src.range(0, 2);
    let at = src.draw(other as u64 + 1) as usize;
    let noise = [1u64, 2, 4, 40][src.draw(4) as usize];
    let k = if onehot { src.range(2, 4) } else { src.range(1, 2) };
    let mut rows = Vec::with_capacity(n);
    let mut labels = Vec::with_capacity(n);
    for r in 0..n {
        let x = ((r + 1) * step % 65_537) as f64;
        let mut row: Vec<f64> = (0..other).map(|c| if c == 0 { (r % 7) as f64 } else { (x / 512.0).floor() }).collect();
        row.insert(at, x + offset);
        rows.push(row);
        let e = src.draw(noise) as f64;
        if onehot {
            // runs of one class of up to three distinct values
            let mut l = vec![0.0; k];
            l[(x / 3.0 + e) as usize % k] = 1.0;
            labels.push(l);
        } else {
            labels.push((0..k).map(|t| if t == 0 { x + e } else { -((x + e) / 16.0).floor() }).collect());
        }
    }
    Data { rows, labels, k, exact: false, inj: Some(at), class: "bushy" }
}

pub fn gen_data(src: &mut Src, o: &Opts) -> Data {
    if o.bushy > 0 && src.chance(o.bushy, 100_000) {
        return gen_bushy(src, o.mode == LabelMode::OneHot);
    }
    let size = src.weighted(&o.sizes);
    let (nmin, nmax, cmin, cmax, kmin, kmax) = match size {
        0 => (1, 6, 1, 3, 1, 3),
        1 => (4, 30, 1, 6, 1, 4),
        2 => (30, 220, 1, 8, 1, 4),
        3 => (221, 1500, 1, 6, 1, 3),
        4 => (2, 30, 40, 400, 1, 3),
        5 => (4, 60, 1, 6, 5, 100),
        _ => (65_600, 70_000, 1, 2, 1, 2),
    };
    let onehot = o.mode == LabelMode::OneHot;
    let n_pos = src.pos();
    let n = nmin + src.draw((nmax - nmin + 1) as u64) as usize;
    let c_pos = src.pos();
    let mut ncols = cmin + src.draw((cmax - cmin + 1) as u64) as usize;
    if size == 4 && src.chance(1, 3) {
        ncols = 9 + ncols % 32;
    }
    let mut n = n;
    if size == 6 && src.chance(2, 3) {
        n = 1_500 + src.draw(10_500) as usize;
    }
    // sizes next to a power of two, where blocks, bit sets and narrow counters end
    if (size == 2 || size == 3 || size == 6) && src.chance(1, 10) {
        let e = match size {
            2 => 5 + src.draw(3) as u32,
            3 => 8 + src.draw(3) as u32,
            _ if n > 60_000 => 16,
            _ => 11 + src.draw(3) as u32,
        };
        n = (1usize << e) + src.draw(3) as usize - 1;
    }
    // now and then more columns than a 16-bit index can name
    let ultra = size == 4 && src.chance(1, 150);
    if ultra {
        ncols = 65_530 + ncols;
        n = 2 + n % 4;
    }
    // some thousand columns, of which one at a random place matters
    let lone = size == 4 && !ultra && src.chance(1, 8);
    if lone {
        ncols = match src.draw(4) {
            0 => ncols,
            1 => 256 * (1 + ncols % 4) + ncols % 9,
            2 => 500 + 4 * ncols,
            _ => 2_000 + 13 * ncols,
        };
        n = 2 + n % 9;
    }
    let vast_k = onehot && size == 5 && src.chance(1, 80);
    if vast_k {
        n = 2 + n % 4;
    }
    let k_pos = src.pos();
    let k = if vast_k {
        65_530 + src.draw(40) as usize
    } else if onehot {
        // for one-hot data K is the number of classes
        let (kl, kh) = match size {
            5 if src.chance(1, 8) => (250, 320),
            5 => (7, 70),
            0 if o.one_class && src.chance(1, 20) => (1, 1),
            _ if src.chance(1, 12) => (7, 12),
            _ => (2, 6),
        };
        kl + src.draw((kh - kl + 1) as u64) as usize
    } else {
        kmin + src.draw((kmax - kmin + 1) as u64) as usize
    };
    // all columns of one kind now and then
    let uniform_kind = if src.chance(1, 4) { Some(src.draw(14) as usize) } else { None };
    let mut cols = vec![];
    let mut col_del: Vec<Vec<(usize, usize)>> = vec![];
    for _ in 0..ncols {
        let s = src.pos();
        let kind = src.weighted(&[6, 3, 4, 3, 4, 1, 2, 2, 2, 2, 2, 2, 3, 2]);
        let param = src.draw(1000);
        let kind = if lone { 5 } else { uniform_kind.unwrap_or(kind) };
        cols.push(Col { kind, param });
        col_del.push(vec![(s, src.pos())]);
    }
    if lone {
        let at = match src.draw(3) {
            0 => ncols - 1,
            1 => ncols - 1 - src.draw(20.min(ncols as u64)) as usize,
            _ => src.draw(ncols as u64) as usize,
        };
        cols[at].kind = [2, 9, 12, 0][src.draw(4) as usize];
    }
    let inj = if size != 6 && !lone && src.chance(o.inj, 100) { Some(src.draw(ncols as u64 + 1) as usize) } else { None };
    let inj_neg = src.draw(2) == 1;
    let dups = src.chance(1, 3);
    let mut rows: Vec<Vec<f64>> = Vec::with_capacity(n);
    let mut row_start = vec![];
    for r in 0..n {
        let s = src.pos();
        row_start.push(s);
        let mut row = Vec::with_capacity(ncols + 1);
        for (ci, c) in cols.iter().enumerate() {
            let p = src.pos();
            let first = if ci > 0 { row[0] } else { 0.0 };
            let v = cell(src, c, r, n, first);
            if src.record {
                col_del[ci].push((p, src.pos()));
            }
            row.push(v);
        }
        let d = if dups { src.draw(4 * n as u64) as usize } else { 0 };
        if dups && d > 0 && d <= r {
            row = rows[d - 1].clone();
            if let Some(p) = inj {
                row.remove(p);
            }
        }
        if let Some(p) = inj {
            let m = src.draw(64) as i64 * n as i64 + r as i64;
            row.insert(p, if inj_neg { -(m as f64) } else { m as f64 });
        }
        rows.push(row);
    }
    let fc = rows[0].len();
    // a column that is an earlier one in all but the order (or the value) of a few rows, the one that
    // looks alike first, last, in its sum and in its set of values
    let mut copied = None;
    if n >= 3 && fc >= 2 && !lone && !ultra && src.chance(1, 12) {
        let from = src.draw(fc as u64) as usize;
        let to = src.draw(fc as u64) as usize;
        let how = src.draw(5);
        let start = match src.draw(4) {
            0 => 0,
            1 => n / 4 + src.draw((n / 4 + 1) as u64) as usize,
            2 => n - 2 - src.draw((n / 2) as u64).min(n as u64 - 2) as usize,
            _ => n / 2,
        };
        if from != to && inj != Some(to) {
            let mut v: Vec<f64> = rows.iter().map(|r| r[from]).collect();
            match how {
                0 => v.swap(start.min(n - 2), n - 1),
                1 => v[start..].reverse(),
                2 => v[start..].rotate_left(1),
                3 => v[start] = v[n - 1],
                _ => v[start..n - 1].reverse(),
            }
            for (r, x) in rows.iter_mut().zip(v) {
                r[to] = x;
            }
            copied = Some(from.max(to));
        }
    }
    // pairs of equal rows with labels far above and far below: what the features can explain is a
    // tiny part of the variance
    let faint = if !onehot && size <= 2 && n >= 4 && inj.is_none() && copied.is_none() && src.chance(1, 12) {
        for r in (1..n).step_by(2) {
            rows[r] = rows[r - 1].clone();
        }
        Some(64.0 * 2f64.powi(src.draw(if o.mode == LabelMode::Exact { 9 } else { 18 }) as i32))
    } else {
        None
    };
    // labels
    let mut labels: Vec<Vec<f64>> = Vec::with_capacity(n);
    let mut exact = !faint.is_some_and(|a| a > 64.0 * 256.0);
    let mut is_deep = false;
    let mut tgt_del: Vec<Vec<(usize, usize)>> = vec![];
    let mut row_label: Vec<(usize, usize)> = vec![];
    if onehot {
        let mode = src.weighted(&[4, 4, 4, 4, 4, 1]);
        let col = if mode == 5 { inj.unwrap_or(0) } else { copied.unwrap_or(src.draw(fc as u64) as usize) };
        let mut sorted: Vec<f64> = rows.iter().map(|r| r[col]).collect();
        sorted.sort_by(|a, b| a.partial_cmp(b).unwrap());
        for r in 0..n {
            let p = src.pos();
            let raw = src.draw(60 * k as u64) as usize;
            let rank = sorted.partition_point(|v| *v < rows[r][col]);
            let by_rank = rank * k / n;
            let class = match mode {
                0 => raw % k,
                1 => by_rank,
                2 => {
                    if raw < 48 * k {
                        by_rank
                    } else {
                        raw % k
                    }
                }
                3 => {
                    if raw < 50 * k {
                        0
                    } else {
                        raw % k
                    }
                }
                4 => (raw / 2 % 2) * (k - 1),
                // neighbours differ: a deep tree
                _ => rank % k,
            };
            let class = if vast_k && raw % 4 != 0 { k - 1 - class % 8 } else { class };
            let mut l = vec![0.0; k];
            l[class] = 1.0;
            labels.push(l);
            row_label.push((p, src.pos()));
        }
    } else {
        let mut tgts = vec![];
        for _ in 0..k {
            let s = src.pos();
            let nk = if o.mode == LabelMode::Exact { 8 } else { 14 };
            let w = [6u64, 4, 5, 3, 3, 1, 1, 2, 4, 2, 3, 2, 1, 2];
            let kind = src.weighted(&w[..nk]);
            let param = src.draw(100_000);
            let mut col = src.draw(fc as u64) as usize;
            let mut kind = kind;
            if let (Some(c), true) = (copied, tgts.is_empty()) {
                col = c;
                kind = [kind, 2, 4][param as usize % 3];
            }
            if kind >= 8 {
                exact = false;
            }
            tgts.push(Tgt { kind, param, col });
            tgt_del.push(vec![(s, src.pos())]);
        }
        let scale_sel = src.weighted(&[24, 2, 2, 2, 3]);
        let scale = match scale_sel {
            0 => 1.0,
            1 => 2f64.powi(-30),
            2 => 2f64.powi(20),
            4 => 2f64.powi(src.zig(81) as i32),
            _ => {
                if o.wide_labels {
                    2f64.powi(src.zig(200) as i32)
                } else {
                    0.5
                }
            }
        };
        let pure = src.chance(1, 30);
        let deep = o.deep > 0 && n <= 400 && src.chance(o.deep, 100);
        is_deep = deep;
        let (ratio, dcol, down, sign) = if deep {
            exact = false;
            ([2.0f64, 2.0, 3.0, 4.0][src.draw(if n <= 250 { 4 } else { 2 }) as usize], inj.unwrap_or_else(|| src.draw(fc as u64) as usize), src.draw(2) == 1, src.draw(3))
        } else {
            (1.0, 0, false, 0)
        };
        let sorted: Vec<f64> = if deep {
            let mut v: Vec<f64> = rows.iter().map(|r| r[dcol]).collect();
            v.sort_by(|a, b| a.partial_cmp(b).unwrap());
            v
        } else {
            vec![]
        };
        for r in 0..n {
            let s = src.pos();
            if deep {
                let rank = sorted.partition_point(|v| *v < rows[r][dcol]);
                let v = ratio.powi(if down { n - 1 - rank } else { rank } as i32);
                let v = if sign == 0 || sign == 1 && rank % 2 == 0 { v } else { -v };
                labels.push((0..k).map(|t| if t % 3 == 1 { -v } else if t % 3 == 2 { 0.5 } else { v }).collect());
                row_label.push((s, src.pos()));
                continue;
            }
            let mut l = Vec::with_capacity(k);
            let mut first = 0.0;
            for (ti, t) in tgts.iter().enumerate() {
                let p = src.pos();
                let v = label_cell(src, t, &rows, r, first);
                if ti == 0 {
                    first = v;
                }
                if src.record {
                    tgt_del[ti].push((p, src.pos()));
                }
                let shift = match faint {
                    Some(a) if r + 1 < n || r % 2 == 1 => if r % 2 == 0 { a } else { -a },
                    _ => 0.0,
                };
                l.push((v + shift) * scale);
            }
            if pure && r > 0 {
                l = labels[0].clone();
            }
            labels.push(l);
            row_label.push((s, src.pos()));
        }
    }
    if src.record {
        for r in 0..n {
            let end = row_start.get(r + 1).copied();
            let end = end.unwrap_or_else(|| {
                // last feature row ends where its own draws end
                let per = if n > 1 { row_start[1] - row_start[0] } else { 0 };
                if n > 1 {
                    row_start[r] + per
                } else {
                    row_start[r]
                }
            });
            src.dels.push(Deletable { dec: n_pos, idx: vec![(row_start[r], end), row_label[r]] });
        }
        for d in col_del {
            src.dels.push(Deletable { dec: c_pos, idx: d });
        }
        for d in tgt_del {
            src.dels.push(Deletable { dec: k_pos, idx: d });
        }
    }
    Data { rows, labels, k, exact, inj, class: if ultra { "ultra-wide" } else if lone { "one column of many" } else if vast_k { "vast-K" } else if is_deep { "deep" } else if faint.is_some() { "faint" } else if copied.is_some() && size != 6 { "near copy of a column" } else { SIZE_NAMES[size] } }
}

/// Query rows: training rows, rows mixing training values, neighbours of training values, extremes.
pub fn gen_queries(src: &mut Src, d: &Data, max: usize) -> Vec<Vec<f64>> {
    let qp = src.pos();
    let m = 1 + src.draw(max as u64) as usize;
    let mut out = vec![];
    for _ in 0..m {
        let s = src.pos();
        let mode = src.draw(4);
        let base = src.draw(d.n() as u64) as usize;
        let mut row = d.rows[base].clone();
        if mode > 0 {
            let few = row.len() > 12;
            let reps = if few { 12 } else { row.len() };
            for i in 0..reps {
                let c = if few { src.draw(row.len() as u64) as usize } else { i };
                let other = src.draw(d.n() as u64) as usize;
                let v = d.rows[other][c];
                row[c] = match mode {
                    1 => v,
                    2 => match src.draw(3) {
                        0 => v,
                        1 => ulp_safe(v, 1),
                        _ => ulp_safe(v, -1),
                    },
                    _ => match src.draw(6) {
                        0 => v,
                        1 => 1e308,
                        2 => -1e308,
                        3 => 0.0,
                        4 => (v + d.rows[base][c]) / 2.0,
                        _ => v * 1.5,
                    },
                };
                if !row[c].is_finite() {
                    row[c] = v;
                }
            }
        }
        out.push(row);
        if src.record {
            let e = src.pos();
            src.dels.push(Deletable { dec: qp, idx: vec![(s, e)] });
        }
    }
    out
}

/// `n` rows that repeat the given ones in turn
/// Held by a case that needs gigabytes: two at a time in all the processes of one check.
pub fn heavy() -> Option<std::fs::File> {
    let dir = std::env::var("VH_SCRATCH").ok()?;
    loop {
        for i in 0..2 {
            let f = std::fs::File::create(std::path::Path::new(&dir).join(format!("heavy{}", i))).ok()?;
            if f.try_lock().is_ok() {
                return Some(f);
            }
        }
        // (a process that waits must not look like one that hangs: use some processor time)
        let t = std::time::Instant::now();
        while t.elapsed().as_millis() < 2 {
            std::hint::spin_loop();
        }
        std::thread::sleep(std::time::Duration::from_millis(20));
    }
}

pub fn replicated(rows: &[Vec<f64>], labels: &[Vec<f64>], n: usize) -> MultiTargetDataSet {
    let m = rows.len();
    let feature_rows: Vec<Vec<f64>> = (0..n).map(|i| rows[i % m].clone()).collect();
    let feature_columns = columns(&feature_rows, rows[0].len());
    MultiTargetDataSet { feature_rows, feature_columns, labels: (0..n).map(|i| labels[i % m].clone()).collect() }
}

pub fn ulp_safe(v: f64, k: i64) -> f64 {
    let w = ulps(v, k);
    if w.is_finite() {
        w
    } else {
        v
    }
}

pub fn gen_levels(src: &mut Src) -> u32 {
    match src.weighted(&[3, 4, 4, 4, 8, 4, 3, 2]) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 3,
        4 => 4 + src.draw(6) as u32,
        5 => 10 + src.draw(20) as u32,
        6 => no_limit(src),
        _ => u32::MAX,
    }
}

/// A limit that no tree reaches, also just above the range of narrower integers.
pub fn no_limit(src: &mut Src) -> u32 {
    match src.weighted(&[3, 2, 1, 1, 1]) {
        0 => 100_000,
        1 => (1 << 8) + src.draw(5) as u32 - 1,
        2 => (1 << 16) + src.draw(5) as u32 - 1,
        3 => (1 << 31) + src.draw(5) as u32 - 1,
        _ => u32::MAX,
    }
}

pub fn config(k: usize, max_levels: u32, mt: bool) -> TreeConfig {
    TreeConfig {
        split_finder: SplitFinder::new(SplitMetric::Variance),
        use_multi_threading: mt,
        number_of_classes: k as u32,
        max_levels,
    }
}

pub fn gen_lr(src: &mut Src) -> f64 {
    match src.weighted(&[12, 16, 12, 8, 8, 16, 3]) {
        6 => 10f64.powi(-3 - src.draw(8) as i32),
        0 => 1.0,
        1 => 0.1,
        2 => 0.5,
        3 => 0.3,
        4 => 0.01,
        _ => (1 + src.draw(1000)) as f64 / 1000.0,
    }
}
