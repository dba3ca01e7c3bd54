//! Reference models shared by the properties.
use crate::engine::Src;

/// Integer words: name, items needed on the data stack.
pub const INT_OPS: &[(&str, usize)] = &[
    ("dup", 1), ("drop", 1), ("swap", 2), ("over", 2), ("nip", 2), ("tuck", 2), ("rot", 3), ("-rot", 3),
    ("2dup", 2), ("2drop", 2), ("2swap", 4), ("2over", 4), ("?dup", 1), ("pick", 2), ("depth", 0),
    ("+", 2), ("-", 2), ("*", 2), ("/", 2), ("mod", 2), ("/mod", 2), ("1+", 1), ("1-", 1), ("2*", 1), ("2/", 1),
    ("abs", 1), ("negate", 1), ("min", 2), ("max", 2),
    ("invert", 1), ("and", 2), ("or", 2), ("xor", 2), ("lshift", 2), ("rshift", 2),
    ("=", 2), ("<>", 2), ("<", 2), (">", 2), ("<=", 2), (">=", 2), ("0<", 1), ("0=", 1), ("0>", 1), ("0<>", 1), ("not", 1),
    ("within", 3), ("true", 0), ("false", 0), ("bl", 0), ("max-n", 0), ("max-u", 0),
    ("cell+", 1), ("cells", 1), ("char+", 1), ("chars", 1), ("float+", 1), ("floats", 1), ("aligned", 1), ("faligned", 1),
    ("/string", 3), ("bounds", 2), ("noop", 0), ("r/o", 0), ("w/o", 0), ("r/w", 0), ("operator", 0), ("bin", 0),
];

pub const R_OPS: &[(&str, usize, usize)] = &[
    // name, data stack items, return stack items needed
    (">r", 1, 0), ("r>", 0, 1), ("r@", 0, 1), ("2>r", 2, 0), ("2r>", 0, 2), ("2r@", 0, 2),
];

fn flag(b: bool) -> i64 {
    if b { -1 } else { 0 }
}

/// Does the word's specification cover these arguments?
pub fn in_domain(op: &str, s: &[i64]) -> bool {
    let t = s.last().copied().unwrap_or(0);
    match op {
        "pick" => t >= 0 && (t as usize) < s.len() - 1,
        "lshift" | "rshift" => (0..64).contains(&t),
        "2/" => t >= 0 || t % 2 == 0,
        _ => true,
    }
}

/// Reference semantics of the integer words. Err(code) for an exception.
pub fn apply_int(op: &str, s: &mut Vec<i64>) -> Result<(), i64> {
    let n = s.len();
    macro_rules! pop { () => { s.pop().expect("model underflow") }; }
    macro_rules! un { ($f:expr) => {{ let a = pop!(); s.push($f(a)); }}; }
    macro_rules! bin { ($f:expr) => {{ let b = pop!(); let a = pop!(); s.push($f(a, b)); }}; }
    // Arithmetic is computed in 128 bits and reduced modulo 2^64.
    let w = |x: i128| x as u64 as i64;
    match op {
        "noop" | "chars" | "bin" => {}
        "dup" => s.push(s[n - 1]),
        "drop" => { pop!(); }
        "swap" => s.swap(n - 1, n - 2),
        "over" => s.push(s[n - 2]),
        "nip" => { s.remove(n - 2); }
        "tuck" => { let t = s[n - 1]; s.insert(n - 2, t); }
        "rot" => { let x = s.remove(n - 3); s.push(x); }
        "-rot" => { let x = pop!(); s.insert(n - 3, x); }
        "2dup" => { s.push(s[n - 2]); s.push(s[n - 1]); }
        "2drop" => { pop!(); pop!(); }
        "2swap" => { s.swap(n - 1, n - 3); s.swap(n - 2, n - 4); }
        "2over" => { s.push(s[n - 4]); s.push(s[n - 3]); }
        "?dup" => if s[n - 1] != 0 { s.push(s[n - 1]) },
        "pick" => { let k = pop!() as usize; s.push(s[s.len() - 1 - k]); }
        "depth" => s.push(n as i64),
        "+" => bin!(|a, b| w(a as i128 + b as i128)),
        "-" => bin!(|a, b| w(a as i128 - b as i128)),
        "*" => bin!(|a, b| w(a as i128 * b as i128)),
        "/" | "mod" | "/mod" => {
            if s[n - 1] == 0 {
                return Err(-10);
            }
            let b = pop!() as i128;
            let a = pop!() as i128;
            if op != "/" { s.push(w(a % b)); }
            if op != "mod" { s.push(w(a / b)); }
        }
        "1+" => un!(|a| w(a as i128 + 1)),
        "1-" => un!(|a| w(a as i128 - 1)),
        "2*" => un!(|a| w(a as i128 * 2)),
        "2/" => un!(|a| w(a as i128 / 2)),
        "abs" => un!(|a: i64| w((a as i128).abs())),
        "negate" => un!(|a| w(-(a as i128))),
        "min" => bin!(|a: i64, b: i64| if a < b { a } else { b }),
        "max" => bin!(|a: i64, b: i64| if a > b { a } else { b }),
        "invert" => un!(|a: i64| -1i64 ^ a),
        "and" => bin!(|a: i64, b: i64| a & b),
        "or" => bin!(|a: i64, b: i64| a | b),
        "xor" => bin!(|a: i64, b: i64| a ^ b),
        "lshift" => bin!(|a: i64, b: i64| (((a as u64 as u128) << b) as u64) as i64),
        "rshift" => bin!(|a: i64, b: i64| ((a as u64 as u128) >> b) as u64 as i64),
        "=" => bin!(|a, b| flag(a == b)),
        "<>" => bin!(|a, b| flag(a != b)),
        "<" => bin!(|a, b| flag(a < b)),
        ">" => bin!(|a, b| flag(a > b)),
        "<=" => bin!(|a, b| flag(a <= b)),
        ">=" => bin!(|a, b| flag(a >= b)),
        "0<" => un!(|a| flag(a < 0)),
        "0=" | "not" => un!(|a| flag(a == 0)),
        "0>" => un!(|a| flag(a > 0)),
        "0<>" => un!(|a| flag(a != 0)),
        "within" => { let c = pop!(); let b = pop!(); let a = pop!(); s.push(flag(b <= a && a < c)); }
        "true" => s.push(-1),
        "false" | "r/o" | "operator" => s.push(0),
        "w/o" => s.push(1),
        "r/w" => s.push(2),
        "bl" => s.push(32),
        "max-n" => s.push(i64::MAX),
        "max-u" => s.push(-1),
        "cell+" | "float+" => un!(|a| w(a as i128 + 8)),
        "cells" | "floats" => un!(|a| w(a as i128 * 8)),
        "char+" => un!(|a| w(a as i128 + 1)),
        "aligned" | "faligned" => un!(|a| w(((a as i128) + 7).div_euclid(8) * 8)),
        "/string" => { let k = pop!(); let u = pop!(); let a = pop!(); s.push(w(a as i128 + k as i128)); s.push(w(u as i128 - k as i128)); }
        "bounds" => { let k = pop!(); let a = pop!(); s.push(w(a as i128 + k as i128)); s.push(a); }
        _ => panic!("no model for {op}"),
    }
    Ok(())
}

pub fn apply_r(op: &str, s: &mut Vec<i64>, r: &mut Vec<i64>) {
    match op {
        ">r" => r.push(s.pop().unwrap()),
        "r>" => s.push(r.pop().unwrap()),
        "r@" => s.push(*r.last().unwrap()),
        "2>r" => { let b = s.pop().unwrap(); let a = s.pop().unwrap(); r.push(a); r.push(b); }
        "2r>" => { let b = r.pop().unwrap(); let a = r.pop().unwrap(); s.push(a); s.push(b); }
        "2r@" => { s.push(r[r.len() - 2]); s.push(r[r.len() - 1]); }
        _ => panic!(),
    }
}

/// A straight-line program with its expected effect.
pub struct Line {
    pub tokens: Vec<String>,
    /// Index of the token which raises an exception and its code.
    pub error: Option<(usize, i64)>,
    pub stack: Vec<i64>,
    pub ops: usize,
}

/// Generate a straight-line program of integer words and literals which is within the
/// specification of all its words, starting with `stack`.
pub fn gen_line(src: &mut Src, stack: &[i64], max_len: usize, with_r: bool, allow_error: bool, limit: usize) -> Line {
    let mut s = stack.to_vec();
    let mut r: Vec<i64> = Vec::new();
    let mut tokens: Vec<String> = Vec::new();
    let mut error = None;
    let mut ops = 0;
    let n = 1 + src.usize(max_len);
    for _ in 0..n {
        let choice = src.weighted(&[3, 9, if with_r { 3 } else { 0 }]);
        if choice == 0 && s.len() < limit {
            let v = src.cell();
            s.push(v);
            tokens.push(v.to_string());
            continue;
        }
        if choice == 2 {
            let (name, ns, nr) = *src.pick(R_OPS);
            if s.len() >= ns && r.len() >= nr && s.len() + 2 <= limit && r.len() < 20 {
                apply_r(name, &mut s, &mut r);
                tokens.push(name.to_string());
                ops += 1;
            }
            continue;
        }
        let (name, need) = *src.pick(INT_OPS);
        if s.len() + 2 > limit {
            s.pop();
            tokens.push("drop".into());
            continue;
        }
        if s.len() < need {
            continue;
        }
        if name == "pick" {
            // Choose a valid argument.
            let k = src.below(s.len() as u64) as i64;
            s.push(k);
            tokens.push(k.to_string());
        } else if name == "lshift" || name == "rshift" {
            let k = src.below(64) as i64;
            s.push(k);
            tokens.push(k.to_string());
        } else if name == "/" || name == "mod" || name == "/mod" {
            // Mostly interesting divisors, seldom zero.
            let k = if src.chance(1, 3) { *src.pick(&[-1i64, 1, 2, 3, 10, -7, 7, i64::MIN, i64::MAX]) } else { *s.last().unwrap() };
            if k != *s.last().unwrap() {
                s.push(k);
                tokens.push(k.to_string());
            }
            if *s.last().unwrap() == 0 && !allow_error {
                continue;
            }
        }
        if !in_domain(name, &s) {
            continue;
        }
        tokens.push(name.to_string());
        ops += 1;
        match apply_int(name, &mut s) {
            Ok(()) => {}
            Err(e) => {
                error = Some((tokens.len() - 1, e));
                // What follows must not be executed.
                for _ in 0..src.usize(4) {
                    let (name, _) = *src.pick(INT_OPS);
                    tokens.push(name.to_string());
                }
                break;
            }
        }
    }
    if error.is_none() {
        while !r.is_empty() {
            if s.len() + 1 > limit {
                tokens.push("drop".into());
                s.pop();
            }
            tokens.push("r>".into());
            s.push(r.pop().unwrap());
        }
    }
    Line { tokens, error, stack: s, ops }
}

/// Case variants of a word.
pub fn vary_case(src: &mut Src, w: &str) -> String {
    match src.below(4) {
        0 => w.to_string(),
        1 => w.to_ascii_uppercase(),
        _ => w.chars().map(|c| if src.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect(),
    }
}

pub fn show(v: &[i64]) -> String {
    let n = v.len();
    let t: Vec<String> = v.iter().rev().take(12).rev().map(|x| x.to_string()).collect();
    format!("<{}> {}{}", n, if n > 12 { "... " } else { "" }, t.join(" "))
}
