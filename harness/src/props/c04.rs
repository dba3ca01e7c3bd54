//! C04: float literals against decimal values computed by the correctly rounding parser of std.
use crate::engine::*;
use crate::props::c03::{looks_float, recognise};
use crate::vm::Vm;

pub fn property() -> Property {
    Property {
        id: "C04",
        rule: "Tokens grown from the float grammar (0 to 18 fraction digits, 1 to 18 integer digits, exponents from none to beyond the double range, both letters and signs) and mutations of them, in several BASE values, interpreted by both loops and compiled; the value is compared with the correctly rounded decimal to 1e-13 relative (or two steps of the subnormal range), a token outside the grammar must raise -13. Non-trivial: a literal with a fraction, a sign or an exponent, or a near-miss token.",
        families: vec![
            Family { name: "literal", quick: 400_000, thorough: 1_500_000, run: literal },
            Family { name: "junk", quick: 300_000, thorough: 1_000_000, run: junk },
            Family { name: "print-read", quick: 200_000, thorough: 800_000, run: print_read },
        ],
        probes: vec![],
        assumptions: vec!["at most 18 digits in each of the integer and fraction parts, at most 17 exponent digits"],
    }
}

fn digits(src: &mut Src, n: usize) -> String {
    let mode = src.below(4);
    (0..n)
        .map(|_| match mode {
            0 => (b'0' + src.below(10) as u8) as char,
            1 => '9',
            2 => *src.pick(&['0', '0', '0', '5']),
            _ => (b'0' + src.below(10) as u8) as char,
        })
        .collect()
}

/// The token and the same number in the notation of std's parser.
fn gen(src: &mut Src) -> (String, String) {
    let mut t = String::new();
    match src.weighted(&[4, 2, 1]) {
        1 => t.push('-'),
        2 => t.push('+'),
        _ => {}
    }
    let mut plain = t.clone();
    let n = 1 + match src.weighted(&[4, 2]) { 0 => src.usize(4), _ => src.usize(18) };
    let i = digits(src, n);
    t.push_str(&i);
    plain.push_str(&i);
    if src.chance(2, 3) {
        let n = match src.weighted(&[4, 2]) { 0 => src.usize(5), _ => src.usize(19) };
        let f = digits(src, n);
        t.push('.');
        t.push_str(&f);
        if !f.is_empty() {
            plain.push('.');
            plain.push_str(&f);
        }
    }
    t.push(if src.chance(1, 2) { 'e' } else { 'E' });
    plain.push('e');
    let sign = src.below(3);
    if sign == 1 {
        t.push('-');
        plain.push('-');
    } else if sign == 2 {
        t.push('+');
    }
    if src.chance(3, 4) {
        let e = match src.weighted(&[5, 4, 3, 1]) {
            0 => src.range(0, 12),
            1 => src.range(0, 340),
            2 => src.range(280, 345),
            _ => *src.pick(&[1000, 400, 99999, 2147483647, 2147483648, 4294967296, 4294967297, 99999999999999999]),
        };
        let e = format!("{}{}", "0".repeat(match src.below(12) { 0 | 1 => src.usize(4), 2 => src.usize(80), _ => 0 }), e);
        t.push_str(&e);
        plain.push_str(&e);
    } else {
        plain.push('0');
    }
    (t, plain)
}

fn close(got: f64, want: f64) -> bool {
    if got.to_bits() == want.to_bits() {
        return true;
    }
    if want == 0.0 || got == 0.0 {
        // A value just below the smallest subnormal.
        return (got - want).abs() <= 1e-323;
    }
    if want.is_infinite() || got.is_infinite() {
        // Only at the very end of the range.
        return got.signum() == want.signum() && got.abs() >= f64::MAX * (1.0 - 1e-13) && want.abs() >= f64::MAX * (1.0 - 1e-13);
    }
    (got - want).abs() <= 1e-13 * want.abs() || (got - want).abs() <= 1e-323
}

fn run(src: &mut Src, vm: &mut Vm, t: &str) -> (Result<(), i64>, u64) {
    let way = src.below(5);
    vm.clear();
    vm.push(42);
    vm.fpush(0.25);
    let r = match way {
        0 => vm.eval(t),
        1 => vm.eval_forth(t),
        2 => vm.eval(&format!(": w {t} ; w")),
        3 => vm.eval(&format!(": w pi {t} fnip ; w")),
        _ => vm.eval(&format!("1 allot : w [ {t} ] fliteral ; w")),
    };
    (r, way)
}

fn set_base(src: &mut Src, vm: &mut Vm) -> i64 {
    let base = if src.chance(1, 3) { src.range(2, 16) } else { 10 };
    let _ = vm.eval(&format!("#{base} base !"));
    base
}

fn literal(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = Vm::new();
    let base = set_base(src, &mut vm);
    for _ in 0..1 + src.usize(5) {
        let (t, plain) = gen(src);
        if recognise(&t, base).is_some() || vm.xt(&t).is_some() {
            continue;
        }
        let want: f64 = plain.parse().expect("plain decimal");
        let (r, way) = run(src, &mut vm, &t);
        note!(ctx, "base {base}, way {way}: {t} = {want:e}");
        if t.len() > 3 { ctx.nontrivial() }
        if want.is_infinite() { ctx.label("infinite") }
        if want != 0.0 && want.abs() < f64::MIN_POSITIVE { ctx.label("subnormal") }
        let (s, f) = (vm.stack(), vm.fstack());
        ensure!(r.is_ok(), "rejected", "{t} in base {base}, way {way}: {r:?}");
        ensure!(s == [42] && f.len() == 2 && f[0] == 0.25, "stacks", "{t}, way {way}: {s:?} {f:?}");
        ensure!(close(f[1], want), "value", "{t} in base {base}, way {way}: {:e} but it spells {:e}", f[1], want);
        ensure!(f[1].is_sign_negative() == t.starts_with('-'), "sign", "{t}: {:e}", f[1]);
        let _ = vm.take_output();
    }
    Ok(())
}

fn junk(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = Vm::new();
    let base = set_base(src, &mut vm);
    for _ in 0..1 + src.usize(5) {
        let (t, _) = gen(src);
        let mut t: Vec<char> = t.chars().collect();
        for _ in 0..1 + src.usize(2) {
            let at = src.usize(t.len() + 1);
            match src.below(5) {
                0 | 1 => {
                    let c = *src.pick(&['.', 'e', 'E', '+', '-', 'd', 'f', ',', '0', '_', 'x', '\'', '$', '#', '%', '٣', 'n', 'i']);
                    t.insert(at, c);
                }
                2 => { if at < t.len() { t.remove(at); } }
                3 => t.truncate(at),
                _ => { t.drain(..at); }
            }
        }
        let t: String = t.into_iter().collect();
        if t.is_empty() || looks_float(&t) || recognise(&t, base).is_some() || vm.xt(&t).is_some() {
            continue;
        }
        let (r, way) = run(src, &mut vm, &t);
        note!(ctx, "base {base}, way {way}: {t}");
        ctx.nontrivial();
        let (s, f) = (vm.stack(), vm.fstack());
        ensure!(r == Err(-13), "accepted", "{t} in base {base}, way {way}: {r:?} {s:?} {f:?}");
        ensure!(s.is_empty() && f.is_empty(), "pushed", "{t}, way {way}: {s:?} {f:?}");
        vm.host_reset();
        let _ = vm.take_output();
    }
    Ok(())
}

/// Printing with n fraction digits and reading back gives the number to within half a unit of the last digit.
fn print_read(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = Vm::new();
    let x = match src.below(3) {
        0 => src.range(-1_000_000_000, 1_000_000_000) as f64 / 1024.0,
        1 => src.range(-4000, 4000) as f64 / *src.pick(&[3.0, 7.0, 10.0, 1000.0]),
        _ => src.range(-(1 << 52), 1 << 52) as f64 * 2f64.powi(src.range(-60, 0) as i32),
    };
    let n = src.range(0, 17);
    vm.fpush(x);
    let r = vm.eval(&format!("{} {n} f.r", src.range(0, 30)));
    let o = vm.take_output();
    let t = format!("{}e", o.trim());
    note!(ctx, "{x:e} printed with {n} digits as {o:?}");
    ctx.nontrivial();
    ensure!(r.is_ok() && vm.fstack().is_empty() && vm.stack().is_empty(), "print", "{x:e} {n} f.r: {r:?}");
    let way = src.below(2);
    let r = if way == 0 { vm.eval(&t) } else { vm.eval(&format!(": w {t} ; w")) };
    let f = vm.fstack();
    let bound = 0.5 * 10f64.powi(-n as i32) * 1.0000001 + 1e-13 * x.abs();
    ensure!(r.is_ok() && f.len() == 1, "read", "{x:e} printed as {o:?}, reading {t}: {r:?} {f:?}");
    ensure!((f[0] - x).abs() <= bound, "round trip", "{x:e} printed as {o:?} and read as {:e}", f[0]);
    Ok(())
}
