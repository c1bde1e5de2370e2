//! Constants in the code under test. A state set that stops at round numbers misses behaviour that changes at a number
//! written in the code, so the sets are refined by the literals found there: all of them where one operand is explored,
//! those that were not there when the alphabets were chosen also where several are. Only the choice of states depends
//! on the text; the verdict on each is the model's.
use std::collections::BTreeSet;
use std::sync::OnceLock;

fn strip(s: &str) -> String {
    let b: Vec<char> = s.chars().collect();
    let (mut o, mut i) = (String::new(), 0);
    while i < b.len() {
        let next = b.get(i + 1).copied().unwrap_or(' ');
        if b[i] == '/' && next == '/' {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
        } else if b[i] == '/' && next == '*' {
            i += 2;
            while i + 1 < b.len() && !(b[i] == '*' && b[i + 1] == '/') {
                i += 1;
            }
            i += 2;
            o.push(' ');
        } else if b[i] == '"' {
            i += 1;
            while i < b.len() && b[i] != '"' {
                i += if b[i] == '\\' { 2 } else { 1 };
            }
            i += 1;
            o.push_str("\"\"");
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

/// The number literals in a text, and the values of `a / b`, `a * b`, `a << b`, `a - b` of two of them.
pub fn literals(s: &str) -> BTreeSet<u64> {
    let b: Vec<char> = strip(s).chars().collect();
    let word = |c: char| c.is_alphanumeric() || c == '_';
    let mut found: Vec<(usize, usize, f64)> = vec![];
    let mut i = 0;
    while i < b.len() {
        if !word(b[i]) {
            i += 1;
            continue;
        }
        let start = i;
        if !b[i].is_ascii_digit() || i > 0 && b[i - 1] == '.' && i > 1 && word(b[i - 2]) {
            while i < b.len() && word(b[i]) {
                i += 1;
            }
            continue;
        }
        let radix = match (b[i], b.get(i + 1)) {
            ('0', Some('x')) => 16,
            ('0', Some('b')) => 2,
            ('0', Some('o')) => 8,
            _ => 10,
        };
        let mut t = String::new();
        let value;
        if radix != 10 {
            i += 2;
            while i < b.len() && word(b[i]) && (b[i] == '_' || b[i].is_digit(radix)) {
                if b[i] != '_' {
                    t.push(b[i]);
                }
                i += 1;
            }
            value = u128::from_str_radix(&t, radix).ok().map(|v| v as f64);
        } else {
            let digits = |i: &mut usize, t: &mut String| {
                while *i < b.len() && (b[*i].is_ascii_digit() || b[*i] == '_') {
                    if b[*i] != '_' {
                        t.push(b[*i]);
                    }
                    *i += 1;
                }
            };
            digits(&mut i, &mut t);
            if i + 1 < b.len() && b[i] == '.' && b[i + 1].is_ascii_digit() {
                t.push('.');
                i += 1;
                digits(&mut i, &mut t);
            } else if i + 1 < b.len() && b[i] == '.' && b[i + 1] != '.' && !word(b[i + 1]) {
                i += 1;
            }
            if i < b.len() && (b[i] == 'e' || b[i] == 'E') {
                let mut j = i + 1;
                let mut e = String::from("e");
                if j < b.len() && (b[j] == '-' || b[j] == '+') {
                    e.push(b[j]);
                    j += 1;
                }
                if j < b.len() && b[j].is_ascii_digit() {
                    digits(&mut j, &mut e);
                    t.push_str(&e);
                    i = j;
                }
            }
            value = t.parse::<f64>().ok();
        }
        while i < b.len() && word(b[i]) {
            i += 1; // suffix
        }
        if let Some(v) = value {
            found.push((start, i, v));
        }
    }
    let mut s: BTreeSet<u64> = found.iter().map(|f| f.2.to_bits()).collect();
    for w in found.windows(2) {
        let op: String = b[w[0].1..w[1].0].iter().filter(|c| !c.is_whitespace()).collect();
        let v = match op.as_str() {
            "/" => w[0].2 / w[1].2,
            "*" => w[0].2 * w[1].2,
            "-" => w[0].2 - w[1].2,
            "<<" => crate::exact::ldexp(w[0].2, (w[1].2 as i32).clamp(0, 200)),
            _ => continue,
        };
        s.insert(v.abs().to_bits());
    }
    s.into_iter().filter(|v| f64::from_bits(*v).is_finite() && *v != 0).collect()
}

fn source(dir: &std::path::Path, out: &mut BTreeSet<u64>) {
    let mut names: Vec<_> = std::fs::read_dir(dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    names.sort();
    for p in names {
        if p.is_dir() {
            source(&p, out);
        } else if let Ok(s) = std::fs::read_to_string(&p) {
            out.extend(literals(&s));
        }
    }
}

/// Literals that the alphabets were chosen with.
const BASE: &str = include_str!("../literals.txt");
const MANY: usize = 400;

fn code() -> &'static [f64] {
    static C: OnceLock<Vec<f64>> = OnceLock::new();
    C.get_or_init(|| {
        let mut s = BTreeSet::new();
        source(std::path::Path::new(&std::env::var("MC_REPO").unwrap_or("/repo".into()).as_str()).join("src").as_path(), &mut s);
        s.into_iter().map(f64::from_bits).take(MANY).collect()
    })
}

/// Points to refine one-operand sets at.
pub fn all() -> &'static [f64] {
    static C: OnceLock<Vec<f64>> = OnceLock::new();
    C.get_or_init(|| {
        use std::f64::consts::*;
        let mut v = vec![FRAC_PI_3, FRAC_PI_6, FRAC_PI_8, FRAC_1_PI, FRAC_2_PI, LN_2, LN_10, LOG2_E, LOG10_E, LOG2_10, SQRT_2, E];
        v.extend(code());
        v
    })
}

/// Constants that have come into the code since the alphabets were chosen; at most a dozen.
pub fn novel() -> &'static [f64] {
    static C: OnceLock<Vec<f64>> = OnceLock::new();
    C.get_or_init(|| {
        let base: BTreeSet<u64> = BASE.lines().filter_map(|l| l.parse::<f64>().ok()).map(f64::to_bits).collect();
        code().iter().copied().filter(|v| !base.contains(&v.to_bits())).take(12).collect()
    })
}

/// The same as whole numbers with their neighbours, for exponents and counts up to `most`.
pub fn counts(most: f64) -> Vec<i64> {
    let mut v: Vec<i64> = novel().iter().filter(|x| x.fract() == 0.0 && x.abs() < most).flat_map(|x| [*x as i64 - 1, *x as i64, *x as i64 + 1]).collect();
    v.sort();
    v.dedup();
    v
}

/// New constants, the numbers whose square they are, and numbers just past them.
pub fn around() -> Vec<f64> {
    let mut v: Vec<f64> = vec![];
    for x in novel() {
        v.extend([*x, x.sqrt(), x * 1.0625, x * 0.9375, x + 1.0, x - 1.0, x * 1.5, x * 2.0]);
    }
    v
}

pub fn print() {
    for v in code() {
        println!("{v:?}");
    }
}

#[cfg(test)]
mod tests {
    #[test]
    fn finds() {
        let s = super::literals("a.0 U13 x1 f(1_000.5f32, 0x10) /* 7 */ \"8\" 9.. 5.0/16.0 1 << 20 2e-3 3. // 6");
        let v: Vec<f64> = s.into_iter().map(f64::from_bits).collect();
        for w in [1000.5, 16.0, 9.0, 0.3125, 1048576.0, 2e-3, 3.0] {
            assert!(v.contains(&w), "{w} in {v:?}");
        }
        for w in [13.0, 7.0, 8.0, 6.0, 1e3] {
            assert!(!v.contains(&w), "{w} in {v:?}");
        }
    }
}
