//! C03: integer literals against an independent token grammar, print-and-read round trips.
use crate::engine::*;
use crate::model::show;
use crate::vm::Vm;

pub fn property() -> Property {
    Property {
        id: "C03",
        rule: "Tokens grown from the literal grammar (every prefix, sign, radix 2 to 16 and odd BASE values, 1 to 70 digits, quoted characters) and mutations of them, interpreted by both loops, compiled, and as operand of [ ] LITERAL; an independent recogniser (digit lists evaluated modulo 2^64) decides value or exception -13. Cells printed by . .R H. H.R in radix 2, 8, 10, 16 are read back. Non-trivial: a literal with a prefix, sign, letter digit, more than 10 digits or a BASE other than 10, or a near-miss token, or a negative or large cell printed.",
        families: vec![
            Family { name: "literal", quick: 250_000, thorough: 1_000_000, run: literal },
            Family { name: "junk", quick: 250_000, thorough: 1_000_000, run: junk },
            Family { name: "roundtrip", quick: 250_000, thorough: 1_000_000, run: roundtrip },
        ],
        probes: vec![],
        assumptions: vec!["tokens are looked up as words first"],
    }
}

/// Value of a token, if it is an integer literal.
pub fn recognise(t: &str, base: i64) -> Option<i64> {
    let b: Vec<char> = t.chars().collect();
    if b.len() == 3 && b[0] == '\'' && b[2] == '\'' && b[1].is_ascii() {
        return Some(b[1] as i64);
    }
    let mut i = 0;
    let mut radix = base;
    match b.first() {
        Some('%') => radix = 2,
        Some('#') => radix = 10,
        Some('$') => radix = 16,
        _ => {}
    }
    if matches!(b.first(), Some('%' | '#' | '$')) {
        i += 1;
    }
    let mut neg = false;
    if matches!(b.get(i), Some('+' | '-')) {
        neg = b[i] == '-';
        i += 1;
    }
    if i >= b.len() {
        return None;
    }
    let mut v: u64 = 0;
    for &c in &b[i..] {
        let d = match c {
            '0'..='9' => c as i64 - '0' as i64,
            'a'..='f' => c as i64 - 'a' as i64 + 10,
            'A'..='F' => c as i64 - 'A' as i64 + 10,
            _ => return None,
        };
        if d >= radix {
            return None;
        }
        v = (v as u128 * radix as u64 as u128 + d as u128) as u64;
    }
    Some(if neg { 0u64.wrapping_sub(v) as i64 } else { v as i64 })
}

pub fn looks_float(t: &str) -> bool {
    let b = t.as_bytes();
    let mut i = 0;
    if matches!(b.first(), Some(b'+' | b'-')) {
        i += 1;
    }
    let d = i;
    while i < b.len() && b[i].is_ascii_digit() {
        i += 1;
    }
    if i == d {
        return false;
    }
    if i < b.len() && b[i] == b'.' {
        i += 1;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
    }
    if !(i < b.len() && (b[i] | 32) == b'e') {
        return false;
    }
    i += 1;
    if matches!(b.get(i), Some(b'+' | b'-')) {
        i += 1;
    }
    while i < b.len() && b[i].is_ascii_digit() {
        i += 1;
    }
    i == b.len()
}

fn gen_base(src: &mut Src) -> i64 {
    match src.weighted(&[4, 3, 4, 1]) {
        0 => 10,
        1 => 16,
        2 => src.range(2, 16),
        _ => *src.pick(&[2, 8, 3, 7, 12, 36, 20, 1, 0, -10, 17]),
    }
}

fn gen_literal(src: &mut Src, base: i64) -> String {
    if src.chance(1, 12) {
        let c = src.range(33, 126) as u8 as char;
        return format!("'{c}'");
    }
    let mut t = String::new();
    let mut radix = base;
    match src.weighted(&[5, 2, 2, 3]) {
        1 => { t.push('%'); radix = 2 }
        2 => { t.push('#'); radix = 10 }
        3 => { t.push('$'); radix = 16 }
        _ => {}
    }
    match src.weighted(&[4, 2, 1]) {
        1 => t.push('-'),
        2 => t.push('+'),
        _ => {}
    }
    let n = match src.weighted(&[5, 4, 2]) {
        0 => src.range(1, 6),
        1 => src.range(7, 24),
        _ => src.range(25, 70),
    };
    let radix = radix.clamp(2, 16) as u64;
    if src.chance(1, 4) {
        // A value next to a boundary.
        let mut v = src.cell() as u64;
        let mut ds = Vec::new();
        loop {
            ds.push(char::from_digit((v % radix) as u32, radix as u32).unwrap());
            v /= radix;
            if v == 0 { break }
        }
        for _ in 0..src.usize(3) { ds.push('0') }
        ds.reverse();
        for c in ds {
            t.push(if src.chance(1, 2) { c.to_ascii_uppercase() } else { c });
        }
        return t;
    }
    for _ in 0..n {
        let d = if src.chance(1, 4) { radix - 1 } else { src.below(radix) };
        let c = char::from_digit(d as u32, 16).unwrap();
        t.push(if src.chance(1, 2) { c.to_ascii_uppercase() } else { c });
    }
    t
}

fn set_base(vm: &mut Vm, base: i64) -> R {
    let r = vm.eval(&format!("#{base} base !"));
    ensure!(r.is_ok() && vm.base() == base, "base", "#{base} base ! : {r:?}, BASE is {}", vm.base());
    Ok(())
}

/// Evaluate one token in one of the ways a program can contain it.
fn token(src: &mut Src, vm: &mut Vm, t: &str, base: i64, want: Option<i64>) -> R {
    if vm.xt(t).is_some() {
        return Ok(());
    }
    let way = src.below(5);
    let below = src.cell();
    vm.clear();
    // A word with this name wins over the literal.
    let mut want = want;
    if src.chance(1, 10) && !t.contains('\u{0}') {
        let n = src.small();
        vm.push(n);
        let r = vm.eval(&format!("constant {t}"));
        ensure!(r.is_ok() && vm.stack().is_empty(), "word", "constant {t}: {r:?}");
        want = Some(n);
    }
    vm.push(below);
    let what = format!("{t} in base {base}, way {way}");
    let r = match way {
        0 => vm.eval(t),
        1 => vm.eval_forth(t),
        2 => vm.eval(&format!(": w {t} ; w")),
        3 => vm.eval(&format!(": w 'x' {t} nip ; w")),
        _ => vm.eval(&format!(": w [ {t} ] literal ; w")),
    };
    match want {
        Some(v) => {
            let s = vm.stack();
            ensure!(r.is_ok() && s == [below, v], "value", "{what}: {r:?} {} expected {v}", show(&s));
            ensure!(vm.fstack().is_empty(), "float", "{what}: floats {:?}", vm.fstack());
        }
        None => {
            let s = vm.stack();
            ensure!(r == Err(-13), "accepted", "{what}: {r:?} {} expected exception -13", show(&s));
            ensure!(s.is_empty() && vm.fstack().is_empty(), "pushed", "{what}: {} {:?}", show(&s), vm.fstack());
            let keep = vm.base();
            ensure!(keep == base, "base", "{what}: BASE became {keep}");
            vm.host_reset();
        }
    }
    Ok(())
}

fn literal(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = Vm::new();
    let base = gen_base(src);
    set_base(&mut vm, base)?;
    for _ in 0..1 + src.usize(6) {
        let t = gen_literal(src, base);
        let v = recognise(&t, base);
        if v.is_none() && looks_float(&t) {
            continue;
        }
        note!(ctx, "base {base}: {t} -> {v:?}");
        if base != 10 || t.len() > 10 || t.contains(['$', '%', '#', '-', '+']) { ctx.nontrivial() }
        if v.is_some() { ctx.label("literal") }
        token(src, &mut vm, &t, base, v)?;
    }
    Ok(())
}

fn junk(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = Vm::new();
    let base = gen_base(src);
    set_base(&mut vm, base)?;
    for _ in 0..1 + src.usize(6) {
        let mut t: Vec<char> = match src.weighted(&[6, 2, 2]) {
            0 => gen_literal(src, base).chars().collect(),
            1 => vec![],
            _ => "12.5e-3".chars().collect(),
        };
        for _ in 0..1 + src.usize(3) {
            let c = match src.weighted(&[5, 4, 1]) {
                0 => *src.pick(&['$', '%', '#', '+', '-', '\'', '.', 'e', 'E', 'g', 'G', 'z', '/', ':', '@', '`', '_', ',', 'x', 'b']),
                1 => char::from_digit(src.below(16) as u32, 16).unwrap(),
                _ => *src.pick(&['é', '٣', '\u{0}', '０', '\u{a0}', '一', '\u{7f}', '😀', '\u{b}']),
            };
            let at = src.usize(t.len() + 1);
            match src.below(3) {
                0 | 1 => t.insert(at, c),
                _ => if at < t.len() { t.remove(at); },
            }
        }
        let t: String = t.into_iter().collect();
        if t.is_empty() || t.contains([' ', '\t', '\n', '\r']) || looks_float(&t) {
            continue;
        }
        let v = recognise(&t, base);
        note!(ctx, "base {base}: {t} -> {v:?}");
        if v.is_none() { ctx.nontrivial(); ctx.label("rejected") }
        token(src, &mut vm, &t, base, v)?;
    }
    Ok(())
}

fn roundtrip(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = Vm::new();
    let radix = *src.pick(&[10i64, 16, 2, 8]);
    set_base(&mut vm, radix)?;
    let n = 1 + src.usize(4);
    let mut cells = Vec::new();
    for _ in 0..n {
        cells.push(src.cell());
    }
    if cells.iter().any(|&c| c < 0 || c > 9) { ctx.nontrivial() }
    let mut text = String::new();
    let mut hexes = Vec::new();
    for &c in &cells {
        vm.push(c);
        let width = src.range(-3, 70);
        let how = src.below(5);
        let line = match how {
            0 => ".".to_string(),
            1 => format!("#{width} .r space"),
            2 => "h. space".to_string(),
            3 => format!("#{width} h.r space"),
            _ => ": w . ; w".to_string(),
        };
        hexes.push(how == 2 || how == 3);
        let r = vm.eval(&line);
        ensure!(r.is_ok() && vm.stack().is_empty(), "print", "{c} {line}: {r:?} {}", show(&vm.stack()));
        let o = vm.take_output().replace("Redefining w", "");
        ensure!(vm.base() == radix, "base", "{c} {line}: BASE became {}", vm.base());
        text.push_str(&o);
    }
    note!(ctx, "radix {radix}: {:?} printed as {:?}", cells, text);
    // Reading the text again in the same radix (hexadecimal for h. and h.r).
    let tokens: Vec<&str> = text.split_whitespace().collect();
    ensure!(tokens.len() == cells.len(), "tokens", "{cells:?} printed as {text:?}");
    for i in 0..cells.len() {
        let t = if hexes[i] { format!("${}", tokens[i]) } else { tokens[i].to_string() };
        if vm.xt(&t).is_some() {
            continue;
        }
        vm.clear();
        let r = vm.eval(&t);
        let s = vm.stack();
        ensure!(r.is_ok() && s == [cells[i]], "round trip", "radix {radix}: {} printed as {t}, read as {r:?} {}", cells[i], show(&s));
    }
    Ok(())
}
