#[macro_use]
mod engine;
mod boost;
mod driver;
mod gen;
mod io;
mod meta;
mod oracle;
mod trees;

use engine::Prop;

/// (id, run, quick cases, thorough cases, worker processes, rule for a non-trivial case)
pub fn props() -> Vec<Prop> {
    fn p(id: &'static str, run: engine::PropFn, quick: u64, thorough: u64, workers: usize, rule: &'static str) -> Prop {
        Prop { id, run, quick, thorough, workers, rule }
    }
    vec![
        p("C01", io::c01, 50_000, 1_500_000, 8, "a file of at least two data rows"),
        p("C02", io::c02, 80_000, 1_800_000, 8, "at least two classes and two rows"),
        p("C03", io::c03, 80_000, 1_800_000, 8, "a fault was injected into an otherwise well-formed file that loads"),
        p("C04", trees::c04, 250_000, 3_000_000, 8, "at least one partition with rows on both sides"),
        p("C05", trees::c05, 500_000, 6_000_000, 8, "some threshold reduces the variance by more than twice the rounding slack"),
        p("C06", trees::c06, 90_000, 1_800_000, 8, "a tree with at least two questions and a gain above the rounding slack"),
        p("C07", trees::c07, 200_000, 2_400_000, 8, "a tree with at least two questions"),
        p("C08", trees::c08, 90_000, 1_500_000, 8, "a tree with a question and (for trained trees) at least two test rows"),
        p("C09", trees::c09, 120_000, 2_400_000, 8, "a tree with a question and at least two test rows"),
        p("C10", meta::c10, 9_000, 210_000, 4, "a trained model of more than a dozen numbers"),
        p("C11", trees::c11, 180_000, 2_400_000, 8, "a tree with at least two questions"),
        p("C12", meta::c12, 100_000, 1_800_000, 8, "a model whose predictions on the queries are not all equal (single trees: that asks a question)"),
        p("C13", boost::c13, 90_000, 1_200_000, 8, "a second or later tree with a question whose gain is above the rounding slack, or a hand-made ensemble with a question"),
        p("C14", boost::c14, 80_000, 1_200_000, 8, "a second or later tree with a question whose gain is above the rounding slack, or a hand-made ensemble with a question"),
        p("C15", boost::c15, 80_000, 1_200_000, 8, "a second or later tree with a question whose gain is above the rounding slack, or a hand-made ensemble with a question"),
        p("C16", boost::c16, 2_500, 75_000, 8, "at least 20 iterations and (on separable data) at least two classes"),
        p("C17", boost::c17, 160_000, 3_000_000, 8, "at least two test rows with different predictions, or a prediction that differs from its label"),
        p("C18", io::c18, 4_000_000, 60_000_000, 4, "vectors of at least two elements, or at least two vectors, or a mismatch"),
        p("C19", io::c19, 450_000, 4_500_000, 8, "a tree with at least two questions"),
        p("C20", boost::c20, 40_000, 600_000, 8, "at least two iterations that together reduce the training error"),
        p("C21", io::c21, 1_000, 15_000, 8, "at least two test rows"),
    ]
}

fn main() {
    driver::main(props());
}
