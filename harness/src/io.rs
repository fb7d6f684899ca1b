//! Loading data files (C01-C03), vector arithmetic (C18), printing (C19), the program (C21).
use crate::engine::*;
use crate::gen::*;
use crate::oracle::*;
use crate::trees::{gen_tree, hand_thresholds, gen_rows_for};
use common::data_reader::*;
use common::datasets::MultiTargetDataSet;
use common::numerical_calculations::*;
use multi_target_decision_tree::decision_trees::*;
use multi_target_decision_tree::leaf::*;
use multi_target_decision_tree::node::TreeNode;
use multi_target_decision_tree::printer::print_tree_regression;
use multi_target_grad_boost::boosting_ensemble::boosting_types::*;
use multi_target_grad_boost::boosting_ensemble::GradientBoostedEnsemble;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

// ---------------------------------------------------------------- CSV files

/// a scratch directory of this process, removed by the driver
pub fn scratch() -> std::path::PathBuf {
    let base = std::env::var("VH_SCRATCH").map(std::path::PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
    let d = base.join(format!("w{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    d
}

/// more digits than a double holds: the value is the nearest double
fn long_number(src: &mut Src) -> (String, f64) {
    let digits = |src: &mut Src, n: usize| -> String {
        let one = src.draw(12);
        (0..n).map(|_| if one < 10 { char::from(b'0' + src.draw(10) as u8) } else { char::from(b'0' + (one as u8 - 10) * 9) }).collect()
    };
    let sign = ["", "-", "+"][src.weighted(&[4, 3, 1])];
    let s = match src.draw(6) {
        0 => {
            let n = src.range(15, 40);
            format!("{}{}", sign, digits(src, n))
        }
        1 => {
            let n = src.range(1, 40);
            format!("{}0.{}", sign, digits(src, n))
        }
        2 => {
            let (a, b) = (src.range(1, 22), src.range(1, 30));
            format!("{}{}.{}", sign, digits(src, a), digits(src, b))
        }
        3 => {
            let (a, b) = (src.range(1, 4), src.range(1, 25));
            let e = src.zig(600);
            let plus = if e >= 0 && src.draw(2) == 1 { "+" } else { "" };
            format!("{}{}.{}{}{}{}", sign, digits(src, a), digits(src, b), if src.draw(2) == 0 { "e" } else { "E" }, plus, e)
        }
        // half-way between two doubles, and the last digit that decides
        4 => format!("{}{}", sign, (1u64 << 53) + 1 + 2 * src.draw(1 << 40)),
        _ => format!("{}{}.{}{}", sign, (1u64 << 53) + 1 + 2 * src.draw(1 << 40), "0".repeat(src.range(0, 30)), src.draw(2)),
    };
    let w: f64 = s.parse().unwrap();
    if w.is_finite() { (s, w) } else { ("1".to_string(), 1.0) }
}

fn number(src: &mut Src, kind: usize) -> (String, f64) {
    if kind == 6 {
        return long_number(src);
    }
    let v = match kind {
        0 => src.zig(10) as f64,
        1 => src.zig(1000) as f64 / 10.0,
        2 => {
            let b = src.draw(0);
            let f = f64::from_bits(b);
            if f.is_finite() { f } else { 1.25 }
        }
        3 => src.zig(1 << 53) as f64,
        4 => src.zig(2_000_000) as f64 / 1000.0,
        _ => [0.1, 1e308, 5e-324, -0.0, 1.7976931348623157e308, 2.2250738585072014e-308, 9007199254740993.0, 0.30000000000000004, 123456789012345680.0][src.draw(9) as usize],
    };
    let s = match src.weighted(&[8, 2, 1, 1, 1, 1, 1, 1]) {
        0 => format!("{}", v),
        1 => format!("{:?}", v),
        2 => format!("{:e}", v),
        3 => format!("{:E}", v),
        4 if v >= 0.0 && !v.is_sign_negative() => format!("+{}", v),
        5 if v >= 0.0 && !v.is_sign_negative() => format!("00{}", v),
        6 => {
            let t = format!("{}", v);
            if t.contains('.') { format!("{}000", t) } else { format!("{}.", t) }
        }
        7 => {
            let t = format!("{}", v);
            if let Some(r) = t.strip_prefix("0.") {
                format!(".{}", r)
            } else if let Some(r) = t.strip_prefix("-0.") {
                format!("-.{}", r)
            } else {
                format!("{}e0", t)
            }
        }
        _ => format!("{}", v),
    };
    let w: f64 = s.parse().unwrap();
    assert!(w.to_bits() == v.to_bits(), "the generator wrote {} for {:?}", s, v);
    (s, v)
}

struct Csv {
    header: Vec<String>,
    cells: Vec<Vec<String>>,
    values: Vec<Vec<f64>>,
    quote: Vec<Vec<bool>>,
    crlf: bool,
    final_newline: bool,
}

fn quote_field(s: &str, force: bool) -> String {
    if force || s.contains(',') || s.contains('"') || s.contains('\n') || s.contains('\r') {
        format!("\"{}\"", s.replace('"', "\"\""))
    } else {
        s.to_string()
    }
}

impl Csv {
    fn nl(&self) -> &'static str {
        if self.crlf { "\r\n" } else { "\n" }
    }
    fn bytes(&self) -> Vec<u8> {
        let mut o = String::new();
        let h: Vec<String> = self.header.iter().map(|x| quote_field(x, self.header.len() == 1 && x.is_empty())).collect();
        o.push_str(&h.join(","));
        o.push_str(self.nl());
        for (r, row) in self.cells.iter().enumerate() {
            for (c, x) in row.iter().enumerate() {
                if c > 0 {
                    o.push(',');
                }
                let q = self.quote.get(r).and_then(|q| q.get(c)).copied().unwrap_or(false);
                o.push_str(&quote_field(x, q));
            }
            if r + 1 < self.cells.len() || self.final_newline {
                o.push_str(self.nl());
            }
        }
        o.into_bytes()
    }
}

fn gen_header(src: &mut Src, c: usize) -> String {
    match src.weighted(&[12, 4, 2, 2, 2, 2, 2, 1, 1, 1, 1]) {
        0 => format!("f{}", c),
        1 => format!("{}", src.zig(100) as f64 / 4.0), // a header that looks like data
        2 => "same".to_string(),
        3 => "a, b".to_string(),
        4 => "sepal \"length\" (cm)".to_string(),
        5 => "größe µ".to_string(),
        6 => "two\nlines".to_string(),
        7 => format!("#{}", c),
        8 => String::new(),
        9 => format!(" f{} ", c),
        _ => "// f; g\th".to_string(),
    }
}

fn gen_csv(src: &mut Src, n: usize, cols: usize) -> Csv {
    let uniform = src.chance(1, 2);
    let kind0 = src.draw(7) as usize;
    let quoting = src.weighted(&[4, 1, 1]);
    let header = (0..cols).map(|c| gen_header(src, c)).collect();
    let crlf = src.chance(1, 3);
    let final_newline = !src.chance(1, 3);
    let (mut cells, mut values, mut quote) = (vec![], vec![], vec![]);
    for _ in 0..n {
        let (mut a, mut b, mut q) = (vec![], vec![], vec![]);
        for _ in 0..cols {
            let kind = if uniform { kind0 } else { src.draw(7) as usize };
            let (s, v) = number(src, kind);
            a.push(s);
            b.push(v);
            q.push(match quoting {
                0 => false,
                1 => true,
                _ => src.draw(2) == 1,
            });
        }
        cells.push(a);
        values.push(b);
        quote.push(q);
    }
    Csv { header, cells, values, quote, crlf, final_newline }
}

fn gen_shape(src: &mut Src, mincols: usize) -> (usize, usize) {
    match src.weighted(&[800, 1600, 400, 400, 5, 3]) {
        5 => (src.range(1, 3), src.range(65_500, 66_500)),
        4 => (src.range(65_500, 66_500), src.range(mincols, mincols + 1)),
        0 => (src.range(1, 3), src.range(mincols, mincols + 2)),
        1 => (src.range(1, 40), src.range(mincols, 10)),
        2 => (src.range(1, 12), src.range(60, 500)),
        _ => (src.range(300, 2500), src.range(mincols, 6)),
    }
}

fn write(name: &str, b: &[u8]) -> String {
    let p = scratch().join(name);
    std::fs::File::create(&p).unwrap().write_all(b).unwrap();
    p.to_str().unwrap().to_string()
}

fn same_rows(what: &str, got: &[Vec<f64>], want: &[Vec<f64>]) -> Res {
    ensure!(got.len() == want.len(), "{}: {} rows loaded, the file has {}", what, got.len(), want.len());
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        ensure!(bits(g) == bits(w), "{}: row {} loaded as {}, the file says {}", what, i, clip(&format!("{:?}", g), 300), clip(&format!("{:?}", w), 300));
    }
    Ok(())
}

fn transposed(what: &str, d: &MultiTargetDataSet, ncols: usize) -> Res {
    ensure!(d.feature_columns.len() == ncols, "{}: {} feature columns, expected {}", what, d.feature_columns.len(), ncols);
    for (c, col) in d.feature_columns.iter().enumerate() {
        let w: Vec<f64> = d.feature_rows.iter().map(|r| r[c]).collect();
        ensure!(bits(col) == bits(&w), "{}: feature column {} is not the transpose of the rows", what, c);
    }
    Ok(())
}

pub fn c01(src: &mut Src, ctx: &mut Ctx) -> Res {
    let two = src.draw(2) == 1;
    let (n, cols) = gen_shape(src, if two { 1 } else { 2 });
    let f = gen_csv(src, n, cols);
    ctx.nontrivial = n >= 2;
    ctx.label(if two { "two files" } else { "one file" });
    ctx.label(if f.crlf { "CRLF" } else { "LF" });
    if !f.final_newline {
        ctx.label("no final newline");
    }
    if n >= 300 {
        ctx.label("rows>=300");
    }
    if cols >= 60 {
        ctx.label("columns>=60");
    }
    ctx.describe(|| format!("file {}", clip(&String::from_utf8_lossy(&f.bytes()), 500)));
    let p = write("a.csv", &f.bytes());
    let names = get_feature_names(&p);
    ensure!(names == f.header, "feature names {:?} read, the header line says {:?}", clip(&format!("{:?}", names), 300), clip(&format!("{:?}", f.header), 300));
    if two {
        let k = if src.chance(1, 8) { src.range(20, 100) } else { src.range(1, 6) };
        let l = gen_csv(src, n, k);
        let pl = write("b.csv", &l.bytes());
        ctx.describe(|| format!("labels file {}", clip(&String::from_utf8_lossy(&l.bytes()), 300)));
        let d = read_csv_data_multi_target(&p, &pl);
        same_rows("features", &d.feature_rows, &f.values)?;
        same_rows("labels", &d.labels, &l.values)?;
        transposed("two-file dataset", &d, cols)?;
        let c = create_feature_columns(&d.feature_rows);
        same_rows("create_feature_columns", &c, &d.feature_columns)?;
    } else {
        let d = read_csv_data(&p);
        let want: Vec<Vec<f64>> = f.values.iter().map(|r| r[..cols - 1].to_vec()).collect();
        same_rows("features", &d.features, &want)?;
        let labels: Vec<f64> = f.values.iter().map(|r| r[cols - 1]).collect();
        ensure!(bits(&d.labels) == bits(&labels), "labels loaded as {}, the last cells are {}", clip(&format!("{:?}", d.labels), 300), clip(&format!("{:?}", labels), 300));
    }
    // the file is replaced by one of the same name and length: two rows and two names change places
    if n >= 2 && src.chance(1, 6) {
        ctx.label("file replaced");
        let mut g = f;
        let (i, j) = (src.draw(n as u64) as usize, src.draw(n as u64) as usize);
        g.cells.swap(i, j);
        g.values.swap(i, j);
        g.quote.swap(i, j);
        g.header.swap(0, cols - 1);
        let p = write("a.csv", &g.bytes());
        let names = get_feature_names(&p);
        ensure!(names == g.header, "feature names {} read after the file was replaced by one with the header {}", clip(&format!("{:?}", names), 300), clip(&format!("{:?}", g.header), 300));
        let d = read_csv_data(&p);
        let want: Vec<Vec<f64>> = g.values.iter().map(|r| r[..cols - 1].to_vec()).collect();
        same_rows("features of the replaced file", &d.features, &want)?;
        let labels: Vec<f64> = g.values.iter().map(|r| r[cols - 1]).collect();
        ensure!(bits(&d.labels) == bits(&labels), "labels of the replaced file loaded as {}", clip(&format!("{:?}", d.labels), 300));
        if two {
            let d = read_csv_data_multi_target(&p, &p);
            same_rows("features of the replaced file", &d.feature_rows, &g.values)?;
            same_rows("labels from the features file", &d.labels, &g.values)?;
        }
    }
    // two files loaded at the same time
    if n <= 200 && src.chance(1, 60) {
        ctx.label("concurrent loads");
        let g = gen_csv(src, n.max(2) - 1, cols + 1);
        let pg = write("c.csv", &g.bytes());
        let pa = write("d.csv", &g.bytes());
        std::thread::scope(|s| {
            let h: Vec<_> = (0..4).map(|t| { let p = if t % 2 == 0 { &pg } else { &pa }; s.spawn(move || read_csv_data_multi_target(p, p)) }).collect();
            for h in h {
                let d = h.join().map_err(|_| "loading panics when several threads load".to_string())?;
                same_rows("features (concurrent loads)", &d.feature_rows, &g.values)?;
                same_rows("labels (concurrent loads)", &d.labels, &g.values)?;
            }
            Res::Ok(())
        })?;
    }
    Ok(())
}

fn spell_class(src: &mut Src, c: usize) -> String {
    match src.weighted(&[6, 3, 1, 1, 1, 1]) {
        0 => format!("{}", c),
        1 => format!("{}.0", c),
        2 => format!("{}e0", c),
        3 => format!("0{}", c),
        4 => format!("{}.", c),
        _ => format!("+{}.000", c),
    }
}

pub fn c02(src: &mut Src, ctx: &mut Ctx) -> Res {
    let k = match src.weighted(&[800, 800, 400, 2]) {
        0 => src.range(1, 4),
        1 => src.range(2, 12),
        2 => src.range(10, 300),
        _ => src.range(65_500, 66_000),
    };
    let (n, cols) = if k > 1000 { (src.range(1, 20), src.range(2, 4)) } else { gen_shape(src, 2) };
    let mut f = gen_csv(src, n, cols);
    let mut classes = vec![];
    for r in 0..n {
        let c = match src.draw(4) {
            0 => k - 1,
            1 => 0,
            _ => src.draw(k as u64) as usize,
        };
        f.cells[r][cols - 1] = spell_class(src, c);
        classes.push(c);
    }
    ctx.nontrivial = k >= 2 && n >= 2;
    ctx.describe(|| format!("K {} file {}", k, clip(&String::from_utf8_lossy(&f.bytes()), 500)));
    let p = write("a.csv", &f.bytes());
    let d = read_csv_data_one_hot_multi_target(&p, k);
    let want: Vec<Vec<f64>> = f.values.iter().map(|r| r[..cols - 1].to_vec()).collect();
    same_rows("features", &d.feature_rows, &want)?;
    transposed("one-hot dataset", &d, cols - 1)?;
    ensure!(d.labels.len() == n, "{} labels for {} rows", d.labels.len(), n);
    for r in 0..n {
        let mut w = vec![0.0; k];
        w[classes[r]] = 1.0;
        ensure!(d.labels[r] == w, "row {} of class {} (K = {}) has label {}", r, classes[r], k, clip(&format!("{:?}", d.labels[r]), 200));
    }
    // a class outside 0..K
    if src.chance(2, 3) {
        ctx.label("class out of range");
        let r = src.draw(n as u64) as usize;
        f.cells[r][cols - 1] = if src.chance(1, 3) {
            // no class at all: below zero, between two classes, or not a number
            ctx.label("label that is no class");
            let c = classes[r];
            match src.draw(8) {
                0 => format!("-{}", spell_class(src, c + 1).trim_start_matches('+')),
                1 => "-1".to_string(),
                2 => format!("{}.5", c),
                3 => format!("{}.{}1", c, "0".repeat(src.draw(9) as usize)),
                4 => if c == 0 { "-0.25".to_string() } else { format!("{}.99999999", c - 1) },
                5 => ["NaN", "nan", "inf", "-inf"][src.draw(4) as usize].to_string(),
                6 => ["1e-3", "1e-300", "5e-324", "-1e-9", "-1e300"][src.draw(5) as usize].to_string(),
                _ => format!("-{}", 256 * (1 + k / 256) - c),
            }
        } else {
            let bad = match src.draw(6) {
                0 | 1 => k,
                2 => k + 1,
                3 => 2 * k + src.draw(300) as usize,
                4 => 256 * (1 + k / 256) + classes[r],
                _ => 65536 + classes[r],
            };
            spell_class(src, if bad < k { k } else { bad })
        };
        let p = write("a.csv", &f.bytes());
        let got = catch_unwind(AssertUnwindSafe(|| read_csv_data_one_hot_multi_target(&p, k)));
        if let Ok(d) = got {
            return Err(format!("row {} has class {} although K is {}, but loading succeeded with label {}", r, f.cells[r][cols - 1], k, clip(&format!("{:?}", d.labels.get(r)), 200)));
        }
    }
    Ok(())
}

const BAD_CELLS: [&str; 42] = ["NaN", "nan", "NAN", "-nan", "+NaN", "nAn", "1\u{0}", "−1", "1\u{200b}", "+-1", "0b1", "1d5", "1e+", "٣", "1.5e2.5", "", "  ", "1 2", "0x10", "1/2", "5%", "1.0f", "(3)", "1..2", "abc", "1.2.3", "--1", "1e", "e5", "NA", "?", "null", "1_000", "½", "１", "true", "-", ".", "1,5", "1.5x", "1e5e5", "$3"];

pub fn c03(src: &mut Src, ctx: &mut Ctx) -> Res {
    let loader = src.draw(3) as usize; // single, two-file, one-hot
    let (n, cols) = gen_shape(src, if loader == 1 { 1 } else { 2 });
    let mut f = gen_csv(src, n, cols);
    let k = 4;
    if loader == 2 {
        for r in 0..n {
            let c = src.draw(4) as usize;
            f.cells[r][cols - 1] = spell_class(src, c);
        }
    }
    let kl = src.range(1, 5);
    let mut l = if loader == 1 { gen_csv(src, n, kl) } else { gen_csv(src, 1, 1) };
    let in_labels = loader == 1 && src.draw(2) == 1;
    let name = ["single-target loader", "two-file loader", "one-hot loader"][loader];
    let load = |pf: &str, pl: &str| -> usize {
        match loader {
            0 => read_csv_data(pf).features.len(),
            1 => read_csv_data_multi_target(pf, pl).feature_rows.len(),
            _ => read_csv_data_one_hot_multi_target(pf, k).feature_rows.len(),
        }
    };
    let pf = write("a.csv", &f.bytes());
    let pl = write("b.csv", &l.bytes());
    if let Err(_) = catch_unwind(AssertUnwindSafe(|| load(&pf, &pl))) {
        return Err(format!("{}: a well-formed file is refused: {}", name, last_panic()));
    }
    let t = if in_labels { &mut l } else { &mut f };
    let tc = t.cells[0].len();
    let row = match src.weighted(&[4, 2, 2]) {
        0 => src.draw(n as u64) as usize,
        1 => n - 1,
        _ => 0,
    };
    let col = match src.weighted(&[4, 2]) {
        0 => src.draw(tc as u64) as usize,
        _ => tc - 1,
    };
    let fault = src.weighted(&[4, 2, 2, 2, 2, 1, 2, 2, 1, 4]);
    let mut raw: Option<Vec<u8>> = None;
    let mut missing = false;
    let what;
    match fault {
        0 => {
            let mut b = BAD_CELLS[src.draw(BAD_CELLS.len() as u64) as usize];
            if b.is_empty() && tc == 1 {
                b = "abc"; // an empty line is not a row
            }
            t.cells[row][col] = b.to_string();
            what = format!("cell ({}, {}) is {:?}", row, col, b);
            ctx.label("bad cell");
        }
        1 if tc > 1 => {
            let all = src.chance(1, 6);
            for r in 0..n {
                if all || r == row {
                    t.cells[r].remove(col);
                    t.quote[r].remove(col);
                }
            }
            what = format!("{} misses a cell", if all { "every row".to_string() } else { format!("row {}", row) });
            ctx.label("missing cell");
        }
        1 | 2 => {
            let v = match src.draw(4) {
                0 | 1 => t.cells[row][col].clone(),
                2 => String::new(), // a trailing comma
                _ => "note".to_string(),
            };
            let times = [1, 1, 2, tc][src.draw(4) as usize];
            let all = src.chance(1, 6);
            for r in 0..n {
                if all || r == row {
                    for _ in 0..times {
                        t.cells[r].push(v.clone());
                    }
                }
            }
            what = format!("{} has {} extra cells {:?}", if all { "every row".to_string() } else { format!("row {}", row) }, times, v);
            ctx.label("extra cell");
        }
        3 => {
            // invalid UTF-8 in a cell
            t.cells[row][col] = "1@@5".to_string();
            let mut b = t.bytes();
            let p = b.windows(2).position(|w| w == b"@@").unwrap();
            b[p] = [0xff, 0xc3, 0xe2, 0x80][src.draw(4) as usize];
            b[p + 1] = [0xfe, 0x28, 0x30, 0x30][src.draw(4) as usize];
            raw = Some(b);
            what = format!("cell ({}, {}) is not UTF-8", row, col);
            ctx.label("invalid UTF-8");
        }
        4 if tc > 1 => {
            // the file ends in the middle of its last row, as after an interrupted copy
            t.cells.truncate(row + 1);
            let keep = 1 + src.draw(tc as u64 - 1) as usize;
            t.cells[row].truncate(keep);
            t.final_newline = false;
            what = format!("the file ends after cell {} of row {}", keep, row);
            ctx.label("truncated file");
        }
        7 if tc > 1 && n > 1 => {
            // a cell slipped into the next row: the number of cells in the file is right
            let from = row.min(n - 2);
            let forward = src.draw(2) == 0;
            if forward {
                let c = t.cells[from].pop().unwrap();
                t.quote[from].pop();
                t.cells[from + 1].insert(0, c);
                t.quote[from + 1].insert(0, false);
            } else {
                let c = t.cells[from + 1].remove(0);
                t.quote[from + 1].remove(0);
                t.cells[from].push(c);
                t.quote[from].push(false);
            }
            what = format!("a cell of rows {} and {} slipped into the other row", from, from + 1);
            ctx.label("slipped cell");
        }
        8 => {
            // a stray quote
            let orphan = src.draw(2) == 0;
            t.cells[row][col] = "1@5".to_string();
            if orphan {
                t.cells[row][col] = "@1.5".to_string();
                for r in row..n {
                    t.quote[r].iter_mut().for_each(|q| *q = false);
                }
            } else {
                t.quote[row][col] = false;
            }
            let mut b = t.bytes();
            let p = b.iter().rposition(|&x| x == b'@').unwrap();
            b[p] = b'"';
            // an opening quote that nothing closes and nothing follows only quotes the last cell
            if orphan && (row, col) == (n - 1, tc - 1) {
                b.extend_from_slice(b"x");
            }
            raw = Some(b);
            what = format!("a stray quote in cell ({}, {})", row, col);
            ctx.label("stray quote");
        }
        9 if loader == 1 => {
            // one file of the pair has more rows than the other
            let times = [1, 1, 1, 2, n][src.draw(5) as usize];
            match src.draw(if tc == 1 { 3 } else { 2 }) {
                0 => {
                    for _ in 0..times {
                        let r = row.min(t.cells.len() - 1);
                        t.cells.remove(r);
                        t.quote.remove(r);
                        if t.cells.is_empty() {
                            break;
                        }
                    }
                    what = format!("{} rows from row {} on are left out", times, row);
                }
                2 => {
                    // the only cell of a row left empty leaves no row
                    t.cells[row][0] = String::new();
                    what = format!("the only cell of row {} is empty", row);
                }
                _ => {
                    for _ in 0..times {
                        let (c, q) = (t.cells[row].clone(), t.quote[row].clone());
                        t.cells.insert(row, c);
                        t.quote.insert(row, q);
                    }
                    what = format!("row {} is written {} times more", row, times);
                }
            }
            ctx.label("unequal row counts");
        }
        4 | 5 | 7 => {
            missing = true;
            what = "the file does not exist".to_string();
            ctx.label("missing file");
        }
        _ => {
            // a whole row replaced by text
            let line = ["# comment, x", "total,,", "abc", "-----"][src.draw(4) as usize];
            let (nl, mut text) = (t.nl(), String::from_utf8(t.bytes()).unwrap());
            if !text.ends_with('\n') {
                text.push_str(nl);
            }
            text.push_str(line);
            text.push_str(nl);
            raw = Some(text.into_bytes());
            what = format!("a trailing line {:?}", line);
            ctx.label("text line");
        }
    }
    ctx.nontrivial = true;
    ctx.describe(|| format!("{}: {} in the {} file {}", name, what, if in_labels { "labels" } else { "features" }, clip(&String::from_utf8_lossy(raw.as_deref().unwrap_or(&t.bytes())), 400)));
    let bytes = raw.unwrap_or_else(|| t.bytes());
    let target = if in_labels { "b.csv" } else { "a.csv" };
    let gone = if in_labels { &pl } else { &pf };
    let folder = missing && src.chance(1, 4);
    if missing {
        std::fs::remove_file(gone).unwrap();
        if folder {
            std::fs::create_dir(gone).unwrap();
            ctx.label("folder in place of the file");
        }
    } else {
        write(target, &bytes);
    }
    let loaded = catch_unwind(AssertUnwindSafe(|| load(&pf, &pl)));
    let names = if missing && !in_labels { catch_unwind(AssertUnwindSafe(|| get_feature_names(&pf))).ok() } else { None };
    if folder {
        std::fs::remove_dir(gone).unwrap();
    }
    if let Some(names) = names {
        return Err(format!("the file does not exist (or is a folder), but reading its feature names returned {:?}", names));
    }
    match loaded {
        Err(_) => Ok(()),
        Ok(m) => Err(format!("{}: {} in the {} file, but loading returned a dataset of {} rows", name, what, if in_labels { "labels" } else { "features" }, m)),
    }
}

// ---------------------------------------------------------------- C18

fn vec_elem(src: &mut Src, kind: usize) -> f64 {
    match kind {
        0 => src.zig(20) as f64,
        1 => src.zig(4000) as f64 / 7.0,
        2 => {
            let b = src.draw(0);
            // keep products and quotients clear of the extremes only loosely: IEEE results are compared
            let f = f64::from_bits(b);
            if f.is_finite() { f } else { 2.5 }
        }
        _ => src.zig(2_000_000) as f64 / 1024.0,
    }
}

pub fn c18(src: &mut Src, ctx: &mut Ctx) -> Res {
    let op = src.draw(9) as usize;
    let len = match src.weighted(&[15000, 20000, 15000, 5000, 1]) {
        4 => src.range(65_530, 66_000) + [0, 0, 65_536, 200_000][src.draw(4) as usize],
        0 => src.range(0, 3),
        1 => src.range(1, 20),
        2 => src.range(16, 140),
        _ => src.range(200, 3000),
    };
    let kind = src.draw(4) as usize;
    let names = ["add", "subtract", "multiply", "divide", "mean squared difference", "scalar multiply", "sum of vectors", "average of vectors", "mismatched lengths"];
    ctx.label(names[op]);
    ctx.nontrivial = len >= 2;
    if op <= 4 || op == 8 {
        let a: Vec<f64> = (0..len).map(|_| vec_elem(src, kind)).collect();
        let b: Vec<f64> = (0..len).map(|_| vec_elem(src, kind)).collect();
        ctx.describe(|| format!("{} of {} and {}", names[op], clip(&format!("{:?}", a), 200), clip(&format!("{:?}", b), 200)));
        let eq = |got: &[f64], f: &dyn Fn(f64, f64) -> f64, name: &str| -> Res {
            ensure!(got.len() == len, "{}: {} results for vectors of length {}", name, got.len(), len);
            for i in 0..len {
                let w = f(a[i], b[i]);
                ensure!(got[i] == w || (got[i].is_nan() && w.is_nan()), "{}: element {} of {:?} and {:?} is {:?}, expected {:?}", name, i, a[i], b[i], got[i], w);
            }
            Ok(())
        };
        match op {
            0 => eq(&add_f64_slices_as_vector(&a, &b), &|x, y| x + y, "add")?,
            1 => eq(&subtract_f64_slices_as_vector(&a, &b), &|x, y| x - y, "subtract")?,
            2 => eq(&multiply_f64_slices_as_vector(&a, &b), &|x, y| x * y, "multiply")?,
            3 => eq(&divide_f64_slices_as_vector(&a, &b), &|x, y| x / y, "divide")?,
            4 if len > 0 => {
                if kind == 2 {
                    return Ok(()); // squares overflow
                }
                let got = mean_sum_of_squared_differences_between_f64_slices(&a, &b);
                let w = a.iter().zip(&b).map(|(x, y)| (x - y) * (x - y)).sum::<f64>() / len as f64;
                ensure!((got - w).abs() <= 4.0 * EPS * (len as f64 + 8.0) * w, "mean squared difference of {} and {} is {:?}, expected {:?}", clip(&format!("{:?}", a), 200), clip(&format!("{:?}", b), 200), got, w);
            }
            8 => {
                let extra = match src.draw(4) {
                    0 | 1 => 1 + src.draw(4) as usize,
                    2 => [8, 16, 32, 64, 256][src.draw(5) as usize],
                    _ => len.max(1) * (1 + src.draw(3) as usize),
                };
                let mut longer = b.clone();
                for _ in 0..extra {
                    longer.push(vec_elem(src, kind));
                }
                let (x, y): (&[f64], &[f64]) = if src.draw(2) == 0 { (&a, &longer) } else { (&longer, &a) };
                let which = src.draw(5) as usize;
                let r = catch_unwind(|| match which {
                    0 => add_f64_slices_as_vector(x, y).len(),
                    1 => subtract_f64_slices_as_vector(x, y).len(),
                    2 => multiply_f64_slices_as_vector(x, y).len(),
                    3 => divide_f64_slices_as_vector(x, y).len(),
                    _ => mean_sum_of_squared_differences_between_f64_slices(x, y) as usize,
                });
                ctx.nontrivial = true;
                ensure!(r.is_err(), "{} accepted vectors of lengths {} and {}", names[which], x.len(), y.len());
            }
            _ => {}
        }
    } else if op == 5 {
        let a: Vec<f64> = (0..len).map(|_| vec_elem(src, kind)).collect();
        let s = vec_elem(src, kind);
        ctx.describe(|| format!("{} times {}", s, clip(&format!("{:?}", a), 300)));
        let got = multiply_f64_slice_by_f64_scalar(s, &a);
        ensure!(got.len() == len, "scalar multiply: {} results for length {}", got.len(), len);
        for i in 0..len {
            ensure!(got[i] == a[i] * s, "{:?} times {:?} is {:?}", a[i], s, got[i]);
        }
    } else {
        let kind = if kind == 2 { 0 } else { kind };
        let m = match src.weighted(&[6000, 8000, 2000, 1]) {
            0 => src.range(1, 3),
            1 => src.range(2, 40),
            2 => src.range(100, 400),
            _ => src.range(65_530, 66_000) + [0, 0, 65_536, 200_000][src.draw(4) as usize],
        };
        let len = if m > 60_000 { len.clamp(1, 2) } else if m <= 40 { len.clamp(1, 3000) } else { len.clamp(1, 60) };
        let vs: Vec<Vec<f64>> = (0..m).map(|_| (0..len).map(|_| vec_elem(src, kind)).collect()).collect();
        ctx.describe(|| format!("{} {}", names[op], clip(&format!("{:?}", vs), 400)));
        ctx.nontrivial = m >= 2;
        let got = if op == 6 { sum_of_f64_vectors(&vs) } else { calculate_average_f64_vector(&vs) };
        ensure!(got.len() == len, "{}: {} results for length {}", names[op], got.len(), len);
        for j in 0..len {
            let s: f64 = vs.iter().map(|v| v[j]).sum();
            let mag: f64 = vs.iter().map(|v| v[j].abs()).sum();
            let (w, tol) = if op == 6 { (s, 2.0 * EPS * m as f64 * mag) } else { (s / m as f64, 2.0 * EPS * (m as f64 + 2.0) * mag / m as f64) };
            ensure!((got[j] - w).abs() <= tol, "{} of {} at position {} is {:?}, expected {:?}", names[op], clip(&format!("{:?}", vs), 200), j, got[j], w);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C19

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
}

/// run f with standard output going to a scratch file and return what was written
fn capture<F: FnOnce()>(f: F) -> Result<String, String> {
    use std::os::unix::io::AsRawFd;
    let p = scratch().join("stdout.txt");
    let file = std::fs::File::create(&p).map_err(|e| e.to_string())?;
    std::io::stdout().flush().ok();
    let saved = unsafe { dup(1) };
    unsafe { dup2(file.as_raw_fd(), 1) };
    let r = catch_unwind(AssertUnwindSafe(f));
    std::io::stdout().flush().ok();
    unsafe {
        dup2(saved, 1);
        close(saved);
    }
    drop(file);
    if r.is_err() {
        return Err(format!("panic while printing: {}", last_panic()));
    }
    std::fs::read_to_string(&p).map_err(|e| e.to_string())
}

fn indent(l: &str) -> usize {
    l.len() - l.trim_start_matches(' ').len()
}

/// a question is printed as a quoted string, in which some characters are written as escapes
fn unescape(t: &str) -> String {
    let mut out = String::new();
    let mut it = t.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match it.next() {
            Some('n') => out.push('\n'),
            Some('t') => out.push('\t'),
            Some('r') => out.push('\r'),
            Some('0') => out.push('\0'),
            Some('u') => {
                let hex: String = it.by_ref().skip(1).take_while(|c| *c != '}').collect();
                out.push(u32::from_str_radix(&hex, 16).ok().and_then(char::from_u32).unwrap_or('\u{fffd}'));
            }
            Some(c) => out.push(c),
            None => {}
        }
    }
    out
}

fn read_back(n: &TreeNode<RegressionLeaf>, names: &[String], lines: &[&str], at: &mut usize, min_indent: usize) -> Res {
    let line = match lines.get(*at) {
        Some(l) => *l,
        None => return Err("the printed tree ends early".into()),
    };
    *at += 1;
    let ind = indent(line);
    ensure!(ind >= min_indent, "line {:?} is not indented more deeply than its parent", clip(line, 120));
    let text = line.trim();
    if let Some(l) = &n.leaf {
        let body = match text.strip_prefix("Predict:") {
            Some(b) => b,
            None => return Err(format!("expected a leaf, printed {:?}", clip(text, 200))),
        };
        let want = format!("{:?}", l.data);
        ensure!(body == want, "leaf data printed as {:?}, the leaf stores {:?}", clip(body, 300), clip(&want, 300));
        return Ok(());
    }
    let q = match text.strip_prefix("\"Is ").and_then(|t| t.strip_suffix('"')) {
        Some(q) => q,
        None => return Err(format!("expected a question, printed {:?}", clip(text, 200))),
    };
    let cut = match q.rfind(" >= ") {
        Some(c) => c,
        None => return Err(format!("no threshold in {:?}", q)),
    };
    let (name, val) = (unescape(&q[..cut]), &q[cut + 4..]);
    ensure!(name == names[n.question.column as usize], "question on column {} printed with name {:?}, the name is {:?}", n.question.column, name, names[n.question.column as usize]);
    let v: f64 = val.parse().map_err(|_| format!("threshold {:?} is not a number", val))?;
    ensure!(v == n.question.value, "threshold {:?} printed as {:?}", n.question.value, val);
    for (branch, marker) in [(&n.true_branch, "--> True:"), (&n.false_branch, "--> False:")] {
        let line = lines.get(*at).copied().unwrap_or("");
        *at += 1;
        ensure!(line.trim() == marker, "expected {:?}, printed {:?}", marker, clip(line, 200));
        read_back(branch.as_ref().unwrap(), names, lines, at, ind + 1)?;
    }
    Ok(())
}

pub fn c19(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (root, ncols): (Box<TreeNode<RegressionLeaf>>, usize);
    if src.draw(2) == 0 {
        let mode = if src.chance(1, 4) { LabelMode::OneHot } else { LabelMode::Regression };
        let mut o = Opts::new(mode);
        o.sizes = [300, 500, 100, 0, 20, 20, 0];
        o.bushy = 5;
        let d = gen_data(src, &o);
        let levels = if d.class == "bushy" { no_limit(src) } else { gen_levels(src) };
        ctx.label(d.class);
        root = Box::new(RegressionMultiTargetDecisionTree::new(d.mt(), config(d.k, levels, src.chance(1, 4))).root);
        ncols = d.ncols();
        ctx.label("trained");
        ctx.describe(|| format!("levels {} {}", levels, d.show()));
    } else {
        ncols = src.range(1, 5);
        let k = src.range(1, 4);
        let depth = src.range(0, 6);
        let big = src.chance(1, 60);
        let mut leaf = |src: &mut Src| {
            let m = match src.weighted(&[60, if big { 2 } else { 0 }]) {
                0 => src.range(1, 4),
                _ => src.range(50, 1200),
            };
            let labels: Vec<Vec<f64>> = (0..m).map(|_| (0..k).map(|_| src.zig(41) as f64 / 4.0).collect()).collect();
            let rows: Vec<Vec<f64>> = (0..m).map(|_| (0..ncols).map(|_| src.zig(9) as f64 / 2.0).collect()).collect();
            RegressionLeaf { data: Some(make_mt(&rows, &labels)) }
        };
        root = Box::new(gen_tree(src, ncols, depth, &mut leaf));
        ctx.label("hand-made");
        ctx.describe(|| format!("hand-made tree {}", clip(&format!("{:?}", root), 500)));
    }
    let names: Vec<String> = (0..ncols + src.draw(2) as usize)
        .map(|c| match src.draw(14) {
            0 => format!("f{}", c),
            1 => format!("petal width ({})", c),
            2 => format!("x >= {}", c),
            3 => format!("{}", 100 - c as i64),
            4 => format!("größe_{}", c),
            5 => format!("{}name", " ".repeat(1 + c % 3)),
            6 => format!("name{}", " ".repeat(1 + c % 3)),
            7 => format!("\"{}\", 5' \\{}", c, c),
            8 => format!("two\nlines\t{}\r", c),
            9 => "same".to_string(),
            10 => String::new(),
            11 => format!("{} of a long name that goes on{}", c, " and on".repeat(20)),
            12 => format!("{{}} {{:?}} {}%s\u{0}\u{301}\u{200b}", c),
            _ => format!("F{}", c),
        })
        .collect();
    let spacing = " ".repeat(src.range(0, 6));
    let out = capture(|| print_tree_regression(&root, spacing.clone(), &names))?;
    let fl = Flat::new(&root, ncols)?;
    ctx.nontrivial = fl.internal() >= 2;
    if fl.depth() >= 5 {
        ctx.label("depth>=5");
    }
    let lines: Vec<&str> = out.lines().filter(|l| !l.trim().is_empty()).collect();
    let mut at = 0;
    read_back(&root, &names, &lines, &mut at, 0)?;
    ensure!(at == lines.len(), "{} lines printed after the end of the tree, first {:?}", lines.len() - at, clip(lines[at], 200));
    // the printed tree is also how the data structure answers: rows reach the same leaf
    let mut th = vec![];
    hand_thresholds(&root, &mut th);
    let _ = gen_rows_for(src, &th, ncols, 1);
    Ok(())
}

// ---------------------------------------------------------------- C21

fn write_csv(path: &std::path::Path, rows: &[Vec<f64>], prefix: &str) {
    let mut s = (0..rows[0].len()).map(|c| format!("{}{}", prefix, c)).collect::<Vec<_>>().join(",");
    s.push('\n');
    for r in rows {
        s.push_str(&r.iter().map(|v| format!("{}", v)).collect::<Vec<_>>().join(","));
        s.push('\n');
    }
    std::fs::write(path, s).unwrap();
}

fn parse_vec(l: &str) -> Result<Vec<f64>, String> {
    let b = l.trim().strip_prefix('[').and_then(|x| x.strip_suffix(']')).ok_or_else(|| format!("not a vector: {:?}", clip(l, 200)))?;
    b.split(',').map(|x| x.trim().parse::<f64>().map_err(|_| format!("not a number: {:?}", x))).collect()
}

pub fn c21(src: &mut Src, ctx: &mut Ctx) -> Res {
    let bin = std::env::var("VH_MAIN_BIN").map_err(|_| "VH_MAIN_BIN is not set".to_string())?;
    // now and then a training file of thousands of rows, and of few columns
    let large = src.chance(1, 200);
    let n = if large { src.range(1000, 6000) } else if src.chance(1, 8) { src.range(100, 200) } else { src.range(11, 60) };
    let nt = if src.chance(1, 20) { src.range(200, 1500) } else { src.range(1, 25) };
    let ncols = if large { src.range(1, 2) } else if src.chance(1, 20) { src.range(7, 60) } else { src.range(1, 6) };
    let k = 10;
    if large { ctx.label("large training file"); }
    let row = |src: &mut Src| -> Vec<f64> { (0..ncols).map(|c| if c % 2 == 0 { src.zig(40) as f64 / 4.0 } else { src.zig(9) as f64 }).collect() };
    let rule: Vec<(usize, f64, f64)> = (0..k).map(|_| (src.draw(ncols as u64) as usize, src.zig(12) as f64 / 2.0, src.zig(40) as f64 / 8.0)).collect();
    let label = |src: &mut Src, r: &[f64]| -> Vec<f64> { rule.iter().map(|&(c, t, a)| if r[c] >= t { a + src.zig(6) as f64 / 10.0 } else { -a + src.zig(6) as f64 / 10.0 }).collect() };
    let rows: Vec<Vec<f64>> = (0..n).map(|_| row(src)).collect();
    let labels: Vec<Vec<f64>> = rows.iter().map(|r| label(src, r)).collect();
    let trows: Vec<Vec<f64>> = (0..nt).map(|_| row(src)).collect();
    let tlabels: Vec<Vec<f64>> = trows.iter().map(|r| label(src, r)).collect();
    ctx.describe(|| format!("{} training rows {} labels {} test rows {} labels {}", n, clip(&format!("{:?}", rows), 200), clip(&format!("{:?}", labels), 200), clip(&format!("{:?}", trows), 200), clip(&format!("{:?}", tlabels), 100)));
    ctx.nontrivial = nt >= 2;
    let dir = scratch().join("cli");
    let data = dir.join("common/data-files/multi-target");
    std::fs::create_dir_all(&data).map_err(|e| e.to_string())?;
    write_csv(&data.join("features_train_mt.csv"), &rows, "f");
    write_csv(&data.join("labels_train_mt.csv"), &labels, "t");
    write_csv(&data.join("features_test_mt.csv"), &trows, "f");
    write_csv(&data.join("labels_test_mt.csv"), &tlabels, "t");
    let threads = ["1", "2", "4", "8"][src.draw(4) as usize];
    if !large && src.chance(1, 6) {
        // one of the four files is missing, has a bad cell or a row too few: no result may be reported
        ctx.label("faulty file");
        let which = ["features_train_mt.csv", "labels_train_mt.csv", "features_test_mt.csv", "labels_test_mt.csv"][src.draw(4) as usize];
        let f = data.join(which);
        let what = src.draw(4);
        if what == 0 {
            std::fs::remove_file(&f).map_err(|e| e.to_string())?;
        } else {
            let text = std::fs::read_to_string(&f).map_err(|e| e.to_string())?;
            let mut lines: Vec<String> = text.lines().map(|l| l.to_string()).collect();
            let i = src.range(1, lines.len() - 1);
            match what {
                1 => lines[i] = lines[i].splitn(2, ',').enumerate().map(|(j, c)| if j == 0 { "x" } else { c }).collect::<Vec<_>>().join(","),
                2 => lines[i] += ",1",
                _ => {
                    lines.remove(i);
                }
            }
            std::fs::write(&f, lines.join("\n") + "\n").map_err(|e| e.to_string())?;
        }
        let out = std::process::Command::new(&bin).current_dir(&dir).env("RAYON_NUM_THREADS", threads).output().map_err(|e| format!("cannot run {}: {}", bin, e))?;
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        ensure!(!out.status.success() && !text.lines().any(|l| l.trim().parse::<f64>().is_ok()), "{} is {}, but the program ended with {:?} and printed {:?}", which, ["missing", "given a bad cell", "given an extra cell", "a row short"][what as usize], out.status, clip(&text, 300));
        return Ok(());
    }
    let out = std::process::Command::new(&bin).current_dir(&dir).env("RAYON_NUM_THREADS", threads).output().map_err(|e| format!("cannot run {}: {}", bin, e))?;
    ensure!(out.status.success(), "the program ended with {:?}: {}", out.status, clip(&String::from_utf8_lossy(&out.stderr), 300));
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let lines: Vec<&str> = text.lines().filter(|l| !l.trim().is_empty()).collect();
    ensure!(lines.len() >= 4, "the program printed {} lines: {:?}", lines.len(), clip(&text, 300));
    let l = &lines[lines.len() - 4..];
    let m = RegressionBoostModel::train(make_mt(&rows, &labels), config(k, 3, false), 300, 0.1);
    let test = make_mt(&trows, &tlabels);
    let num = |s: &str| s.trim().parse::<f64>().map_err(|_| format!("not a number: {:?}", clip(s, 100)));
    let (mse, rmse) = (num(l[0])?, num(l[1])?);
    let want = m.calculate_score(&test);
    let close = |a: f64, b: f64| (a - b).abs() <= 1e-9 * (a.abs() + b.abs()) + 1e-12;
    ensure!(close(mse, want), "the program reports error {:?}, the ensemble trained on the training pair has {:?} on the test pair", mse, want);
    ensure!(close(rmse, want.sqrt()), "the program reports root error {:?}, expected {:?}", rmse, want.sqrt());
    let (tl, pr) = (parse_vec(l[2])?, parse_vec(l[3])?);
    ensure!(tl == tlabels[0], "the program prints labels {:?} for the first test row, they are {:?}", tl, tlabels[0]);
    let wp = m.predict(&trows[0]);
    ensure!(pr.len() == wp.len() && pr.iter().zip(&wp).all(|(a, b)| close(*a, *b)), "the program predicts {:?} for the first test row, the ensemble {:?}", pr, wp);
    Ok(())
}
