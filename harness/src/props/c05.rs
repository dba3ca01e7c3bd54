//! C05: output words against an independent formatter with exact decimal arithmetic.
use crate::capture;
use crate::engine::*;
use crate::vm::Vm;

pub fn property() -> Property {
    Property {
        id: "C05",
        rule: "Programs made of . .R H. H.R ? F. F.R EMIT TYPE S\" .\" .( SPACE SPACES CR and flush-output with random cells, floats, widths (negative to 120), radices and Unicode texts, interpreted, compiled, in loops and in called words; TYPE of random bytes, some not UTF-8, in data space; texts, widths and bytes of up to 60 kB in family long; the standard output at each flush and the output buffer are compared with a reference formatter (repeated division for cells, exact binary-to-decimal expansion for floats). Non-trivial: a padded or negative or non-decimal number, a rounded float, or at least three output words.",
        families: vec![
            Family { name: "cell", quick: 240_000, thorough: 2_000_000, run: cell },
            Family { name: "float", quick: 200_000, thorough: 2_000_000, run: float },
            Family { name: "program", quick: 200_000, thorough: 1_500_000, run: program },
            Family { name: "bytes", quick: 60_000, thorough: 500_000, run: bytes },
            Family { name: "long", quick: 6_000, thorough: 60_000, run: long },
        ],
        probes: vec![],
        assumptions: vec!["finite floats", "a flush of a non-empty buffer ends with one line end"],
    }
}

/// Digits of a cell in a radix: two's complement for negative cells outside decimal.
pub fn digits(v: i64, radix: i64) -> String {
    let neg = radix == 10 && v < 0;
    let mut u = if neg { (v as i128).unsigned_abs() } else { v as u64 as u128 };
    let mut out = Vec::new();
    loop {
        out.push(b"0123456789ABCDEF"[(u % radix as u128) as usize]);
        u /= radix as u128;
        if u == 0 {
            break;
        }
    }
    if neg {
        out.push(b'-');
    }
    out.reverse();
    String::from_utf8(out).unwrap()
}

fn pad(s: &str, width: i64) -> String {
    let n = width.saturating_sub(s.len() as i64).max(0) as usize;
    " ".repeat(n) + s
}

/// Exact decimal expansion of |x|: integer digits and fraction digits.
fn expand(x: f64) -> (Vec<u8>, Vec<u8>) {
    let bits = x.to_bits() & !(1 << 63);
    let e = (bits >> 52) as i64;
    let (mut m, e) = if e == 0 { (bits, -1074) } else { ((bits & ((1 << 52) - 1)) | 1 << 52, e - 1075) };
    let mut e = e;
    while m != 0 && m % 2 == 0 && e < 0 {
        m /= 2;
        e += 1;
    }
    // Digits of m, least significant first.
    let mut d: Vec<u8> = Vec::new();
    while m > 0 {
        d.push((m % 10) as u8);
        m /= 10;
    }
    let mut frac = 0usize;
    let mul = |d: &mut Vec<u8>, k: u8| {
        let mut carry = 0u32;
        for x in d.iter_mut() {
            let v = *x as u32 * k as u32 + carry;
            *x = (v % 10) as u8;
            carry = v / 10;
        }
        while carry > 0 {
            d.push((carry % 10) as u8);
            carry /= 10;
        }
    };
    if e >= 0 {
        for _ in 0..e {
            mul(&mut d, 2);
        }
    } else {
        // m / 2^k = m * 5^k / 10^k
        for _ in 0..-e {
            mul(&mut d, 5);
        }
        frac = (-e) as usize;
    }
    while d.len() < frac + 1 {
        d.push(0);
    }
    d.reverse();
    let f = d.split_off(d.len() - frac);
    (d, f)
}

/// The texts which are correct for x with n fraction digits (two for an exact tie).
pub fn fixed(x: f64, n: usize) -> Vec<String> {
    let (i, f) = expand(x);
    let mut kept: Vec<u8> = i.clone();
    for k in 0..n {
        kept.push(f.get(k).copied().unwrap_or(0));
    }
    let rest: &[u8] = if f.len() > n { &f[n..] } else { &[] };
    let mut up = false;
    let mut tie = false;
    if let Some(&first) = rest.first() {
        let more = rest[1..].iter().any(|&d| d != 0);
        if first > 5 || (first == 5 && more) {
            up = true;
        } else if first == 5 {
            tie = true;
        }
    }
    let text = |digits: &[u8]| -> String {
        let mut s: String = digits[..digits.len() - n].iter().map(|d| (b'0' + d) as char).collect();
        let t = s.trim_start_matches('0').to_string();
        s = if t.is_empty() { "0".into() } else { t };
        if n > 0 {
            s.push('.');
            s.extend(digits[digits.len() - n..].iter().map(|d| (b'0' + d) as char));
        }
        if x.is_sign_negative() { format!("-{s}") } else { s }
    };
    let inc = |digits: &[u8]| -> Vec<u8> {
        let mut v = digits.to_vec();
        v.insert(0, 0);
        let mut k = v.len() - 1;
        loop {
            v[k] += 1;
            if v[k] < 10 { break }
            v[k] = 0;
            k -= 1;
        }
        v
    };
    if tie {
        vec![text(&kept), text(&inc(&kept))]
    } else if up {
        vec![text(&inc(&kept))]
    } else {
        vec![text(&kept)]
    }
}

fn gen_radix(src: &mut Src) -> i64 {
    *src.pick(&[10, 16, 2, 8])
}

fn cell(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = Vm::new();
    let valid = !src.chance(1, 8);
    let radix = if valid { gen_radix(src) } else { *src.pick(&[0i64, 1, 3, 7, 9, 11, 15, 17, 36, -10, i64::MIN, i64::MAX, 256 + 10]) };
    let _ = vm.eval(&format!("#{radix} base ! variable v"));
    let forth = src.chance(1, 4);
    for k in 0..1 + src.usize(4) {
        let v = src.cell();
        let below = src.cell();
        vm.push(below);
        vm.push(v);
        let w = match src.below(4) { 0 => src.range(-5, 5), 1 => src.range(60, 140), 2 => *src.pick(&[i64::MIN, -1, 0, 1, 255, 256, 257, 1000]), _ => src.range(0, 30) };
        let (line, want): (String, Option<String>) = match src.below(6) {
            0 => (".".into(), Some(digits(v, radix.clamp(2, 16)) + " ")),
            1 => (format!("#{w} .r"), Some(pad(&digits(v, radix.clamp(2, 16)), w))),
            2 => ("h.".into(), Some(digits(v, 16) + " ")),
            // H.R prints a space after the number.
            3 => (format!("#{w} h.r"), Some(pad(&digits(v, 16), w))),
            4 => ("v ! v ?".into(), Some(digits(v, radix.clamp(2, 16)) + " ")),
            _ => (format!(": w{k} #{w} .r . ; #{v} swap w{k}"), Some(pad(&digits(v, radix.clamp(2, 16)), w) + &digits(v, radix.clamp(2, 16)) + " ")),
        };
        let hex = line.contains('h');
        note!(ctx, "base {radix}: {v} {line}");
        if v < 0 || radix != 10 || w > 20 { ctx.nontrivial() }
        let r = if forth { vm.eval_forth(&line) } else { vm.eval(&line) };
        let o = vm.take_output();
        if !valid && !hex {
            ensure!(r == Err(-21), "radix", "base {radix}: {v} {line}: {r:?} {o:?}, expected exception -21");
            vm.host_reset();
            vm.clear();
            continue;
        }
        ensure!(r.is_ok(), "exception", "base {radix}: {v} {line}: {r:?}");
        ensure!(Some(&o) == want.as_ref(), "text", "base {radix}: {v} {line}: {o:?} expected {want:?}");
        ensure!(vm.base() == radix, "base", "{v} {line}: BASE {radix} became {}", vm.base());
        let s = vm.stack();
        ensure!(s == [below], "stack", "{v} {line}: {s:?}");
        vm.clear();
    }
    Ok(())
}

fn float(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = Vm::new();
    let radix = if src.chance(1, 4) { src.range(2, 16) } else { 10 };
    let _ = vm.eval(&format!("#{radix} base !"));
    for k in 0..1 + src.usize(3) {
        let mut x = match src.weighted(&[3, 2, 2, 2]) {
            0 => src.float(),
            // Ties and near ties.
            1 => src.range(-4000, 4000) as f64 / 2f64.powi(src.range(0, 12) as i32),
            2 => src.range(-100_000, 100_000) as f64 / 10f64.powi(src.range(0, 8) as i32),
            _ => 10f64.powi(src.range(-20, 20) as i32) - 10f64.powi(src.range(-20, 3) as i32),
        };
        if !x.is_finite() {
            x = 0.5;
        }
        let n = src.range(0, 17);
        let w = match src.below(3) { 0 => src.range(-5, 5), 1 => src.range(20, 60), _ => src.range(0, 30) };
        vm.fpush(0.125);
        vm.fpush(x);
        let (line, cands) = match src.below(4) {
            0 => ("f.".to_string(), fixed(x, 7).into_iter().map(|t| t + " ").collect::<Vec<_>>()),
            1 => (format!(": w{k} f. ; w{k}"), fixed(x, 7).into_iter().map(|t| t + " ").collect::<Vec<_>>()),
            _ => (format!("#{w} #{n} f.r"), fixed(x, n as usize).into_iter().map(|t| pad(&t, w)).collect()),
        };
        note!(ctx, "{x:e} {line}");
        if x.fract() != 0.0 { ctx.nontrivial() }
        if cands.len() > 1 { ctx.label("tie") }
        let r = vm.eval(&line);
        let o = vm.take_output();
        ensure!(r.is_ok(), "exception", "{x:e} {line}: {r:?}");
        let ok = cands.contains(&o) || (x == 0.0 && o.trim() == cands[0].trim().trim_start_matches('-'));
        ensure!(ok, "text", "{x:e} {line}: {o:?} expected {cands:?}");
        let (s, f) = (vm.stack(), vm.fstack());
        ensure!(s.is_empty() && f == [0.125], "stack", "{x:e} {line}: {s:?} {f:?}");
        vm.clear();
    }
    Ok(())
}

pub fn gen_text(src: &mut Src, no: char, max: usize) -> String {
    let n = match src.weighted(&[5, 2, 1]) { 0 => src.usize(8), 1 => src.usize(40), _ => {
        let m = if max >= 300 && src.chance(1, 8) { max * 6 } else { max.max(1) };
        src.usize(m)
    } };
    let mut s = String::new();
    for _ in 0..n {
        let c = match src.weighted(&[8, 2, 2]) {
            0 => src.range(33, 126) as u8 as char,
            1 => ' ',
            _ => *src.pick(&['é', '漢', '字', '😀', 'ß', '٣', '\u{301}', '\t', '\\', '(', ')', '"', '|']),
        };
        if c != no {
            s.push(c);
        }
    }
    s
}

fn program(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = Vm::new();
    let _ = capture::take();
    let _ = vm.eval("variable v 1 v !");
    let mut radix = 10i64;
    // The expected standard output and the text which is still in the buffer.
    let mut out = String::new();
    let mut buf = String::new();
    let mut words = 0;
    let lines = 1 + src.usize(4);
    let mut session = String::new();
    for l in 0..lines {
        let compiled = src.chance(1, 2);
        let forth = src.chance(1, 4);
        // Text printed while compiling, then what the word prints.
        let mut body = String::new();
        let mut run: Vec<Option<String>> = Vec::new();
        let mut during: Vec<Option<String>> = Vec::new();
        for _ in 0..1 + src.usize(6) {
            words += 1;
            let v = src.cell();
            match src.below(14) {
                0 => { body.push_str(&format!("#{v} . ")); run.push(Some(digits(v, radix) + " ")) }
                1 => { let w = src.range(-3, 30); body.push_str(&format!("#{v} #{w} .r ")); run.push(Some(pad(&digits(v, radix), w))) }
                2 => { body.push_str(&format!("#{v} h. ")); run.push(Some(digits(v, 16) + " ")) }
                3 => { let c = src.range(0, 127); body.push_str(&format!("#{c} emit ")); run.push(Some((c as u8 as char).to_string())) }
                4 => { body.push_str("space "); run.push(Some(" ".into())) }
                5 => { let n = src.range(-4, 20); body.push_str(&format!("#{n} spaces ")); run.push(Some(" ".repeat(n.max(0) as usize))) }
                6 => { body.push_str("cr "); run.push(Some("\n".into())) }
                7 | 8 if compiled => { let t = gen_text(src, '"', 300); body.push_str(&format!("s\" {t}\" type ")); run.push(Some(t)) }
                9 if compiled => { let t = gen_text(src, '"', 300); body.push_str(&format!(".\" {t}\" ")); run.push(Some(t)) }
                10 => {
                    let t = gen_text(src, ')', 60);
                    body.push_str(&format!(".({t}) ").replacen("(", "( ", 1));
                    let t = format!(" {t}");
                    if compiled { during.push(Some(t)) } else { run.push(Some(t)) }
                }
                11 => { body.push_str("flush-output "); run.push(None) }
                12 if compiled => {
                    let n = src.range(1, 5);
                    body.push_str(&format!("#{n} 0 do i . loop "));
                    run.push(Some((0..n).map(|i| digits(i, radix) + " ").collect()));
                }
                13 if !compiled => {
                    radix = gen_radix(src);
                    body.push_str(&format!("#{radix} base ! "));
                }
                _ => { body.push_str("v ? "); run.push(Some("1 ".into())) }
            }
        }
        let line = if compiled { format!(": word{l} {body}; word{l}") } else { body };
        session.push_str(&line);
        session.push('\n');
        let r = if forth { vm.eval_forth(&line) } else { vm.eval(&line) };
        ensure!(r.is_ok() && vm.stack().is_empty(), "exception", "{session}{r:?} {:?}", vm.stack());
        for t in during.into_iter().chain(run) {
            match t {
                Some(t) => buf.push_str(&t),
                None => if !buf.is_empty() {
                    out.push_str(&buf);
                    out.push('\n');
                    buf.clear();
                },
            }
        }
    }
    note!(ctx, "{session}");
    if words >= 3 { ctx.nontrivial() }
    if !out.is_empty() { ctx.label("flushed") }
    let got = capture::take();
    let rest = vm.take_output();
    ensure!(got == out, "flushed", "{session}flushed {got:?} expected {out:?}");
    ensure!(rest == buf, "buffer", "{session}buffer {rest:?} expected {buf:?}");
    Ok(())
}

/// TYPE of bytes anywhere in data space: what is UTF-8 is printed, in order, and other bytes only
/// become replacement characters.
fn bytes(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = Vm::new();
    let n = 1 + src.usize(20);
    let mut b: Vec<u8> = Vec::new();
    for _ in 0..n {
        match src.weighted(&[5, 2, 2]) {
            0 => b.push(src.range(32, 126) as u8),
            1 => b.extend(src.pick(&["é", "漢", "😀", "ß"]).bytes()),
            _ => b.push(src.below(256) as u8),
        }
    }
    let at = src.usize(b.len() + 1);
    let len = src.usize(b.len() - at + 1);
    let mut line = String::from("create z ");
    for x in &b {
        line.push_str(&format!("{x} c, "));
    }
    let body = format!("z {at} + {len} type .\" <\" ");
    let compiled = src.chance(1, 2);
    line.push_str(&if compiled { format!("align : w {body}; w") } else { format!("align : w .\" <\" ; z {at} + {len} type w") });
    let r = if src.chance(1, 3) { vm.eval_forth(&line) } else { vm.eval(&line) };
    note!(ctx, "{line}");
    ensure!(r.is_ok() && vm.stack().is_empty(), "exception", "{line}: {r:?} {:?}", vm.stack());
    let part = &b[at..at + len];
    let want = String::from_utf8_lossy(part).into_owned() + "<";
    let got = vm.take_output();
    if len >= 3 { ctx.nontrivial() }
    let strip = |s: &str| s.replace('\u{fffd}', "");
    if std::str::from_utf8(part).is_ok() {
        ensure!(got == want, "text", "{line}: printed {got:?}, expected {want:?}");
    } else {
        ctx.label("not UTF-8");
        ensure!(strip(&got) == strip(&want), "text", "{line}: printed {got:?}, expected {want:?}");
        ensure!(got != strip(&got), "replacement", "{line}: printed {got:?}, expected {want:?}");
    }
    Ok(())
}

/// A text of about `n` bytes.
fn long_text(src: &mut Src, n: usize, no: char) -> String {
    let mut part = gen_text(src, no, 60);
    if part.is_empty() {
        part.push('x');
    }
    let mut s = String::new();
    while s.len() < n {
        s.push_str(&part);
        if src.chance(1, 8) {
            s.push(*src.pick(&['a', 'Z', '~', '0']));
        }
    }
    s
}

/// Long texts, wide fields and many pieces.
fn long(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = Vm::big(48);
    let _ = capture::take();
    let (mut out, mut buf) = (String::new(), String::new());
    let forth = src.chance(1, 4);
    let size = |src: &mut Src| -> usize {
        match src.below(3) {
            0 => (1usize << src.range(5, 15)).saturating_sub(src.usize(3)) + src.usize(3),
            1 => src.usize(3000),
            _ => src.usize(20_000),
        }
    };
    let n = 1 + src.usize(5);
    for k in 0..n {
        let line = match src.below(8) {
            0 => {
                let n = size(src);
                let t = long_text(src, n, '"');
                let here = vm.here();
                // Straight into the data space
                if here + t.len() + 2000 > vm.limit() {
                    continue;
                }
                let r = vm.eval(&format!("create z{k} {} allot align", t.len()));
                ensure!(r.is_ok(), "exception", "allot: {r:?}");
                let _ = vm.eval(&format!("z{k}"));
                let at = vm.stack()[0] as usize;
                vm.clear();
                vm.bytes_mut(at, t.len()).copy_from_slice(t.as_bytes());
                buf.push_str(&t);
                format!("z{k} {} type", t.len())
            }
            1 | 2 => {
                let n = size(src);
                let t = long_text(src, n, '"');
                if vm.here() + t.len() + 2000 > vm.limit() {
                    continue;
                }
                buf.push_str(&t);
                if src.chance(1, 2) { format!(": w{k} .\" {t}\" ; w{k}") } else { format!(": w{k} s\" {t}\" type ; w{k}") }
            }
            3 => {
                let n = size(src);
                let t = long_text(src, n, ')');
                buf.push(' ');
                buf.push_str(&t);
                format!(".( {t})")
            }
            4 => {
                let n = size(src);
                buf.push_str(&" ".repeat(n));
                format!("{n} spaces")
            }
            5 => {
                let (v, w) = (src.cell(), size(src) as i64);
                buf.push_str(&pad(&digits(v, 10), w));
                format!("#{v} #{w} .r")
            }
            6 => {
                let (v, w) = (src.range(-1000, 1000), size(src) as i64);
                buf.push_str(&pad(&format!("{v}.00"), w));
                format!("{v}e #{w} 2 f.r")
            }
            _ => {
                let n = src.range(1, 2000);
                for i in 0..n {
                    buf.push_str(&digits(i, 10));
                    buf.push(if i % 2 == 0 { ' ' } else { '\n' });
                }
                format!(": w{k} {n} 0 do i 0 .r i 2 mod if cr else space then loop ; w{k}")
            }
        };
        let short: String = line.chars().take(60).collect();
        note!(ctx, "{short} ({} bytes)", line.len());
        let r = if forth { vm.eval_forth(&line) } else { vm.eval(&line) };
        ensure!(r.is_ok() && vm.stack().is_empty(), "exception", "{short}: {r:?} {:?}", vm.stack());
        if src.chance(1, 4) {
            let r = vm.eval("flush-output");
            ensure!(r.is_ok(), "exception", "flush-output: {r:?}");
            if !buf.is_empty() {
                out.push_str(&buf);
                out.push('\n');
                buf.clear();
            }
        }
    }
    let got = capture::take();
    let rest = vm.take_output();
    for (what, got, want) in [("flushed", got, out), ("buffer", rest, buf)] {
        if got.len() + want.len() > 256 { ctx.nontrivial() }
        if got != want {
            let i = got.bytes().zip(want.bytes()).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            return fail(what, format!("{} bytes printed, {} expected; the first difference is at {i}", got.len(), want.len()));
        }
    }
    Ok(())
}
