//! Writes the Display and Debug texts of many matrices to standard error, so
//! that two builds of the library (with and without colours) can be compared.
//! Standard output is left for the driver to connect to a pipe or a terminal.
use matreex::{Matrix, Order};
use std::fmt::{Debug, Display};
use std::io::Write;

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}
fn emit<T: Display + Debug>(out: &mut Vec<u8>, name: &str, m: &Matrix<T>) {
    let a = format!("{m}");
    let b = format!("{m:?}");
    let c = format!("{m:#?}");
    let _ = writeln!(out, "\u{1}{name} {:?} {}", m.shape(), if m.order() == Order::RowMajor { "R" } else { "C" });
    let _ = write!(out, "\u{2}{a}\u{2}{b}\u{2}{c}\u{2}");
}
fn both<T: Display + Debug + Clone>(out: &mut Vec<u8>, name: &str, r: usize, c: usize, vals: Vec<T>) {
    let mut m = Matrix::from_row(vals);
    m.reshape((r, c)).expect("setup");
    emit(out, name, &m);
    m.switch_order();
    emit(out, name, &m);
}

fn main() {
    let seed: u64 = std::env::args().nth(1).and_then(|s| s.parse().ok()).unwrap_or(1);
    let count: u64 = std::env::args().nth(2).and_then(|s| s.parse().ok()).unwrap_or(100);
    let words = ["", "a", "12", "héllo", "日本", "x y", "two\nlines", "\n", "three\n\nlines", "[1]", "\u{1F980}"];
    let mut out = Vec::new();
    for k in 0..count {
        let z = |n: u64| mix(seed.wrapping_mul(1_000_003).wrapping_add(k * 64).wrapping_add(n));
        let (r, c) = match k % 8 { 0 => (0, z(1) as usize % 4), 1 => (1, z(1) as usize % 20), 2 => (z(1) as usize % 20, 1), 3 => (11, 10), _ => (1 + z(1) as usize % 6, 1 + z(2) as usize % 6) };
        match k % 4 {
            0 => both(&mut out, "i64", r, c, (0..r * c).map(|p| (z(9 + p as u64) >> (p % 60)) as i64 - 5).collect()),
            1 => both(&mut out, "words", r, c, (0..r * c).map(|p| words[z(9 + p as u64) as usize % words.len()].to_string()).collect()),
            2 => both(&mut out, "f64", r, c, (0..r * c).map(|p| (z(9 + p as u64) % 1000) as f64 / 8.0).collect()),
            _ => both(&mut out, "bool", r, c, (0..r * c).map(|p| z(9 + p as u64) % 2 == 0).collect()),
        }
    }
    let _ = std::io::stderr().write_all(&out);
}
