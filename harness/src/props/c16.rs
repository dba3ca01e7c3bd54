//! C16: float and unit words agree with IEEE 754 double arithmetic.
use crate::engine::*;
use crate::model;
use crate::vm::Vm;
use std::f64::consts::PI;

pub fn property() -> Property {
    Property {
        id: "C16",
        rule: "Family sequence: sequences of all exactly defined float words, float memory words, constants, FPICK, conversions and integer words on stacks of special and arbitrary doubles, interpreted, compiled or in evaluate-input, against a reference stack machine (own rounding, conversion and comparison code); bits of all items are compared. Family function: trigonometric words, powers and unit words against the mathematical value to 1e-12, with items below. Family identity: relations between the words evaluated by the machine itself (sin^2+cos^2, FSINCOS, tangent and arc functions, quadrants of FATAN2, FLOOR <= x < FLOOR+1, FNEGATE and conversions). Non-trivial: three or more float words; argument not 0.",
        families: vec![
            Family { name: "sequence", quick: 400_000, thorough: 5_000_000, run: sequence },
            Family { name: "function", quick: 250_000, thorough: 2_500_000, run: function },
            Family { name: "identity", quick: 100_000, thorough: 800_000, run: identity },
        ],
        probes: vec![],
        assumptions: vec!["NaN payloads and signs are not specified, nor FMIN and FMAX of NaN or of zeros of different sign, nor F>S of NaN", "unit words are compared for magnitudes between 1e-280 and 1e290"],
    }
}

/// Floats pushed exactly, as the host does.
const WORDS: &[(&str, usize, usize)] = &[
    // name, float items, data items
    ("f+", 2, 0), ("f-", 2, 0), ("f*", 2, 0), ("f/", 2, 0), ("fsqrt", 1, 0), ("fnegate", 1, 0), ("fabs", 1, 0), ("fmin", 2, 0), ("fmax", 2, 0), ("floor", 1, 0), ("fceil", 1, 0), ("fround", 1, 0),
    ("fdup", 1, 0), ("fdrop", 1, 0), ("fswap", 2, 0), ("fnip", 2, 0), ("fover", 2, 0), ("frot", 3, 0), ("fpick", 1, 0), ("s>f", 0, 1), ("f>s", 1, 0), ("f0<", 1, 0), ("f0=", 1, 0), ("f<", 2, 0), ("f>", 2, 0), ("f~", 3, 0),
    ("pi", 0, 0), ("fliteral", 1, 0), ("memory", 1, 0), ("fconstant", 1, 0), ("fvariable", 1, 0), ("f,", 1, 0), ("literal", 0, 0), ("float", 0, 0), ("int", 0, 2), ("doer", 1, 0), ("frot", 3, 0), ("f~", 3, 0), ("f~x", 2, 0), ("depth", 0, 0),
];

/// Two's complement truncation with saturation.
fn to_int(x: f64) -> i64 {
    if x >= 9223372036854775808.0 {
        return i64::MAX;
    }
    if x <= -9223372036854775808.0 {
        return i64::MIN;
    }
    // Decode the bits.
    let b = x.to_bits();
    let e = ((b >> 52) & 0x7ff) as i32 - 1075;
    let m = if (b >> 52) & 0x7ff == 0 { return 0 } else { (b & ((1 << 52) - 1)) | (1 << 52) };
    let v = if e >= 0 { (m as u128) << e.min(70) } else if e <= -64 { 0 } else { (m as u128) >> -e };
    if x < 0.0 { (v as i128).wrapping_neg() as i64 } else { v as i64 }
}

/// Nearest double of an integer, ties to even.
fn to_float(n: i64) -> f64 {
    let neg = n < 0;
    let a = n.unsigned_abs();
    if a == 0 {
        return 0.0;
    }
    let bits = 64 - a.leading_zeros() as i32;
    let v = if bits <= 53 {
        (a as u128, 0)
    } else {
        let sh = bits - 53;
        let q = (a >> sh) as u128;
        let r = a & ((1u64 << sh) - 1);
        let half = 1u64 << (sh - 1);
        let q = if r > half || (r == half && q % 2 == 1) { q + 1 } else { q };
        (q, sh)
    };
    let x = v.0 as f64 * 2f64.powi(v.1);
    if neg { -x } else { x }
}

/// Rounding to an integral value: -1 down, 0 to nearest with halves away, 1 up.
fn integral(x: f64, dir: i32) -> f64 {
    if x.is_nan() || x.is_infinite() || x.abs() >= 4503599627370496.0 || x == 0.0 {
        return x;
    }
    let t = to_int(x);
    let tf = t as f64;
    let frac = x - tf;
    let r = match dir {
        -1 => if frac < 0.0 { t - 1 } else { t },
        1 => if frac > 0.0 { t + 1 } else { t },
        _ => if frac >= 0.5 { t + 1 } else if frac <= -0.5 { t - 1 } else { t },
    };
    if r == 0 && x < 0.0 { -0.0 } else { r as f64 }
}

fn same(a: f64, b: f64) -> bool {
    a.is_nan() && b.is_nan() || a.to_bits() == b.to_bits()
}

fn show(v: &[f64]) -> String {
    format!("{v:?}")
}

fn sequence(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = Vm::new();
    let r = vm.eval("create fbuf 128 allot variable junk fvariable fv : doer create falign f, does> faligned f@ ;");
    ensure!(r == Ok(()), "setup", "{r:?}");
    let fbuf = vm.here() as i64;
    let _ = fbuf;
    let deep = src.chance(1, 8);
    let nf = if deep { 50 + src.usize(12) } else { src.usize(7) };
    let ns = src.usize(4);
    let mut f: Vec<f64> = (0..nf).map(|_| src.float()).collect();
    let mut s: Vec<i64> = (0..ns).map(|_| src.cell()).collect();
    for x in &f {
        vm.fpush(*x);
    }
    for x in &s {
        vm.push(*x);
    }
    let (f0, s0) = (f.clone(), s.clone());
    let compiled = src.chance(1, 2);
    let forth = src.chance(1, 3);
    let n = 1 + src.usize(if src.scale > 1 { 60 } else { 16 });
    let mut toks: Vec<String> = vec![];
    let mut pre: Vec<String> = vec![];
    let mut ops = 0;
    for k in 0..n {
        let (w, need, ineed) = WORDS[src.usize(WORDS.len())];
        if f.len() < need || s.len() < ineed || f.len() + 2 > 64 || s.len() + 2 > 60 {
            continue;
        }
        let top = f.last().copied().unwrap_or(0.0);
        let mut text = w.to_string();
        let l = f.len();
        let fl = |b: bool| if b { -1i64 } else { 0 };
        macro_rules! bin { ($e:expr) => {{ let b = f.pop().unwrap(); let a = f.pop().unwrap(); f.push($e(a, b)); }}; }
        match w {
            "f+" => bin!(|a: f64, b: f64| a + b),
            "f-" => bin!(|a: f64, b: f64| a - b),
            "f*" => bin!(|a: f64, b: f64| a * b),
            "f/" => bin!(|a: f64, b: f64| a / b),
            "fsqrt" => f[l - 1] = top.sqrt(),
            "fnegate" => f[l - 1] = f64::from_bits(top.to_bits() ^ (1 << 63)),
            "fabs" => f[l - 1] = f64::from_bits(top.to_bits() & !(1 << 63)),
            "fmin" | "fmax" => {
                let (a, b) = (f[l - 2], f[l - 1]);
                if a == 0.0 && b == 0.0 {
                    continue;
                }
                f.truncate(l - 2);
                // A number is preferred to a NaN.
                f.push(if a.is_nan() { b } else if b.is_nan() { a } else if (w == "fmin") == (a < b) { a } else { b });
            }
            "floor" => f[l - 1] = integral(top, -1),
            "fceil" => f[l - 1] = integral(top, 1),
            "fround" => f[l - 1] = integral(top, 0),
            "fdup" => f.push(top),
            "fdrop" => {
                f.pop();
            }
            "fswap" => f.swap(l - 1, l - 2),
            "fnip" => {
                f.remove(l - 2);
            }
            "fover" => f.push(f[l - 2]),
            "frot" => {
                let x = f.remove(l - 3);
                f.push(x);
            }
            "fpick" => {
                let k = src.usize(l);
                f.push(f[l - 1 - k]);
                text = format!("#{k} fpick");
            }
            "s>f" => f.push(to_float(s.pop().unwrap())),
            "f>s" => {
                f.pop();
                s.push(if top.is_nan() { 0 } else { to_int(top) });
            }
            "f0<" => s.push(fl({ f.pop(); top < 0.0 })),
            "f0=" => s.push(fl({ f.pop(); top == 0.0 })),
            "f<" | "f>" => {
                let (a, b) = (f[l - 2], f[l - 1]);
                f.truncate(l - 2);
                s.push(fl(if w == "f<" { a < b } else { a > b }));
            }
            "f~" | "f~x" => {
                if w == "f~x" {
                    // A tolerance close to the difference.
                    let d = (f[l - 2] - f[l - 1]).abs();
                    let t = match src.usize(6) {
                        0 => 0.0,
                        1 => -0.0,
                        2 => d,
                        3 => f64::from_bits(d.to_bits().wrapping_add(1)),
                        4 => -(d / (f[l - 2].abs() + f[l - 1].abs())),
                        _ => *src.pick(&[1e-9, -1e-9, 1.0, -0.5]),
                    };
                    if t.is_nan() {
                        continue;
                    }
                    f.push(t);
                    pre.push(format!("fconstant tol{k}"));
                    // The host supplies the value exactly.
                    vm.clear();
                    vm.fpush(t);
                    let r = vm.eval(pre.last().unwrap());
                    ensure!(r == Ok(()), "setup", "{r:?}");
                    text = format!("tol{k} f~");
                }
                let l = f.len();
                let (a, b, t) = (f[l - 3], f[l - 2], f[l - 1]);
                f.truncate(l - 3);
                let v = if t > 0.0 {
                    (a - b).abs() < t
                } else if t == 0.0 {
                    if a.is_nan() && b.is_nan() {
                        f.extend([a, b, t]);
                        if w == "f~x" {
                            f.pop();
                        }
                        continue;
                    }
                    a.to_bits() == b.to_bits()
                } else {
                    (a - b).abs() < t.abs() * (a.abs() + b.abs())
                };
                s.push(fl(v));
            }
            "pi" => f.push(PI),
            "fliteral" => {
                if !compiled {
                    continue;
                }
                // A value computed while compiling.
                let a = src.range(-1000, 1000);
                text = format!("[ #{a} s>f 8e f/ ] fliteral");
                f.push(a as f64 / 8.0);
            }
            "memory" => {
                let o = src.usize(15) * 8;
                let back = src.usize(8).min(o);
                let a = match src.usize(3) {
                    0 => format!("fbuf #{} + fdup f! fbuf #{o} + f@", o - back),
                    1 => "fdup fv f! fv f@".to_string(),
                    _ => "fdup fbuf f! fbuf f@ fdup fbuf float+ f! fdrop fbuf 1 floats + f@".to_string(),
                };
                text = a;
                f.push(top);
            }
            "fconstant" | "fvariable" | "f," | "doer" => {
                if compiled {
                    continue;
                }
                text = match w {
                    "fconstant" => format!("fconstant fc{k} fc{k}"),
                    "fvariable" => format!("fvariable fw{k} fw{k} f! fw{k} f@"),
                    "doer" => format!("doer fd{k} fd{k}"),
                    _ => "falign f, here 1 floats - f@".to_string(),
                };
            }
            "literal" => {
                let v = src.cell();
                text = format!("#{v}");
                s.push(v);
            }
            "float" => {
                let m = src.range(-99999, 99999);
                text = format!("{m}e");
                f.push(m as f64);
            }
            "int" => {
                text = (*src.pick(&["+", "swap", "over", "drop", "nip", "-", "and"])).to_string();
                if model::apply_int(&text.clone(), &mut s).is_err() {
                    unreachable!();
                }
            }
            "depth" => {
                s.push(s.len() as i64);
            }
            _ => unreachable!(),
        }
        if need > 0 || w == "s>f" {
            ops += 1;
        }
        toks.push(text);
    }
    // Definitions of constants used the stacks.
    vm.clear();
    for x in &f0 {
        vm.fpush(*x);
    }
    for x in &s0 {
        vm.push(*x);
    }
    note!(ctx, "stack {s0:?} floats {f0:?}");
    let text = toks.join(" ");
    let run = |vm: &mut Vm, l: &str| if forth { vm.eval_forth(l) } else { vm.eval(l) };
    let r = if compiled {
        note!(ctx, ": t {text} ; t{}", if forth { " (evaluate-input)" } else { "" });
        // Compilation of [ ... ] must not disturb the stacks.
        let r = vm.eval(&format!(": t {text} ;"));
        if r.is_ok() { run(&mut vm, "t") } else { r }
    } else {
        note!(ctx, "{text}{}", if forth { " (evaluate-input)" } else { "" });
        run(&mut vm, &text)
    };
    ensure!(r == Ok(()), "exception", "exception {r:?}");
    let (gs, gf) = (vm.stack(), vm.fstack());
    ensure!(gs == s, "stack", "stack {}, expected {}", model::show(&gs), model::show(&s));
    ensure!(gf.len() == f.len() && gf.iter().zip(&f).all(|(a, b)| same(*a, *b)), "fstack", "floats {}, expected {}", show(&gf), show(&f));
    if ops >= 3 {
        ctx.nontrivial();
    }
    Ok(())
}

fn close(a: f64, b: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    if a.is_infinite() || b.is_infinite() {
        return a == b;
    }
    (a - b).abs() <= 1e-12 * a.abs().max(b.abs()) || (a.abs() < 1e-300 && b.abs() < 1e-300)
}

/// word, numerator, denominator, power of pi
const UNITS: &[(&str, f64, f64, i32)] = &[
    ("meter", 1.0, 1.0, 0), ("mm", 1.0, 1e3, 0), ("um", 1.0, 1e6, 0), ("deg", 1.0, 180.0, 1), ("rad", 1.0, 1.0, 0), ("hr", 3600.0, 1.0, 0), ("minute", 60.0, 1.0, 0), ("sec", 1.0, 1.0, 0), ("msec", 1.0, 1e3, 0), ("usec", 1.0, 1e6, 0),
    ("mm/min", 1.0, 60000.0, 0), ("mm/sec", 1.0, 1e3, 0), ("um/msec", 1.0, 1e3, 0), ("rpm", 1.0, 30.0, 1), ("hz", 1.0, 1.0, 0), ("1/sec", 1.0, 1.0, 0),
];

fn function(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = Vm::new();
    let nb = src.usize(4);
    let below: Vec<f64> = (0..nb).map(|_| src.float()).collect();
    let ints: Vec<i64> = (0..src.usize(3)).map(|_| src.cell()).collect();
    let arg = |src: &mut Src| -> f64 {
        match src.weighted(&[4, 3, 2, 2]) {
            0 => src.range(-2000, 2000) as f64 / 1000.0,
            1 => src.range(-100, 100) as f64 / 4.0,
            2 => *src.pick(&[0.0, -0.0, 1.0, -1.0, PI, -PI, PI / 2.0, 1e-10, 1e10, 0.5, f64::INFINITY, f64::NEG_INFINITY, 2.0, -2.0]),
            _ => src.float(),
        }
    };
    let x = arg(src);
    let k = src.usize(10 + UNITS.len());
    let (word, args, expect): (&str, Vec<f64>, Vec<f64>) = match k {
        0 => ("fsin", vec![x], vec![x.sin()]),
        1 => ("fcos", vec![x], vec![x.cos()]),
        2 => ("ftan", vec![x], vec![x.tan()]),
        3 => ("fsincos", vec![x], vec![x.sin(), x.cos()]),
        4 => ("fasin", vec![x], vec![x.asin()]),
        5 => ("facos", vec![x], vec![x.acos()]),
        6 => ("fatan", vec![x], vec![x.atan()]),
        7 => {
            let y = arg(src);
            ("fatan2", vec![y, x], vec![y.atan2(x)])
        }
        8 | 9 => {
            let y = arg(src);
            ("f**", vec![x, y], vec![x.powf(y)])
        }
        _ => {
            let (w, n, d, p) = UNITS[k - 10];
            if x != 0.0 && x.is_finite() && (x.abs() < 1e-280 || x.abs() > 1e290) {
                return Ok(());
            }
            let v = if n == 1.0 && d == 1.0 && p == 0 { x } else { x * (n * PI.powi(p) / d) };
            (w, vec![x], vec![v])
        }
    };
    ctx.label(word);
    for v in below.iter().chain(&args) {
        vm.fpush(*v);
    }
    for v in &ints {
        vm.push(*v);
    }
    let line = match src.usize(3) {
        0 => word.to_string(),
        1 => format!(": t {word} ; t"),
        _ => format!("' {word} execute"),
    };
    let forth = src.chance(1, 3);
    note!(ctx, "floats {below:?} {args:?}: {line}");
    let r = if forth { vm.eval_forth(&line) } else { vm.eval(&line) };
    ensure!(r == Ok(()), "exception", "exception {r:?}");
    ensure!(vm.stack() == ints, "stack", "stack {:?}", vm.stack());
    let f = vm.fstack();
    ensure!(f.len() == nb + expect.len(), "depth", "floats {f:?}, expected {below:?} {expect:?}");
    ensure!(f.iter().zip(&below).all(|(a, b)| same(*a, *b)), "below", "floats {f:?}, expected {below:?} below");
    ensure!(f[nb..].iter().zip(&expect).all(|(a, b)| close(*a, *b)), "value", "{word} of {args:?} gives {:?}, expected {expect:?}", &f[nb..]);
    if x != 0.0 {
        ctx.nontrivial();
    }
    Ok(())
}

fn identity(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = Vm::new();
    let x = src.range(-100_000, 100_000) as f64 / 1024.0;
    let y = src.range(-100_000, 100_000) as f64 / 1024.0;
    let near = |a: f64, b: f64| (a - b).abs() <= 1e-11 * (1.0 + a.abs().max(b.abs()));
    vm.fpush(x);
    vm.fpush(y);
    let k = src.usize(12);
    let line = [
        "fdrop fdup fsin fdup f* fswap fcos fdup f* f+",
        "fdrop fdup fsincos f/ fswap ftan f-",
        "fdrop fdup fsincos frot fdup fsin fswap fcos frot f- frot frot f- fabs fswap fabs f+",
        "fover fover fatan2 fdup fsin fswap fcos",
        "fdrop fdup floor f-",
        "fdrop fdup fceil fswap f-",
        "fdrop fdup fround f- fabs",
        "fdrop fatan ftan",
        "fdrop fdup fabs 1e f+ f/ fasin fsin",
        "fdrop fdup fabs 1e f+ f/ fdup facos fcos f-",
        "fdrop fdup fabs fdup fsqrt fdup f* f-",
        "fdrop fabs 1e f+ fdup 3e f** fswap fdup fdup f* f* f/",
    ][k];
    let def = src.chance(1, 2);
    let l = if def { format!(": t {line} ; t") } else { line.to_string() };
    note!(ctx, "floats {x} {y}: {l}");
    let r = vm.eval(&l);
    ensure!(r == Ok(()), "exception", "{r:?}");
    let f = vm.fstack();
    let t = *f.last().unwrap_or(&f64::NAN);
    let ok = match k {
        0 => near(t, 1.0),
        1 => (t).abs() <= 1e-9 * (1.0 + x.tan() * x.tan()),
        2 => t.abs() < 1e-12 && f.len() == 1 + (f.len() - 1),
        3 => {
            let h = (x * x + y * y).sqrt();
            h == 0.0 || (f.len() == 4 && near(f[2] * h, x) && near(f[3] * h, y))
        }
        4 => (0.0..1.0).contains(&t),
        5 => (0.0..1.0).contains(&t),
        6 => (0.0..=0.5).contains(&t),
        7 => (t - x).abs() <= 1e-10 * (1.0 + x * x),
        8 => near(t, x / (x.abs() + 1.0)),
        9 => t.abs() < 1e-10,
        10 => t.abs() <= 1e-12 * x.abs(),
        _ => near(t, 1.0),
    };
    ensure!(ok, "identity", "{line}: leaves {f:?}");
    if x != 0.0 && y != 0.0 {
        ctx.nontrivial();
    }
    Ok(())
}
