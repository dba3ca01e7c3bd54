//! C06: memory words with addresses inside, outside and across the ends of the data space.
//! The data space lies between inaccessible guard pages.
use crate::engine::*;
use crate::vm::Vm;
use std::os::unix::fs::FileExt;

pub fn property() -> Property {
    Property {
        id: "C06",
        rule: "Memory words and file words with addresses biased to the ends of the data space, HERE, 0, -1, the sign boundary and wrapping sums, any alignment and lengths from negative to larger than the data space; the data space lies between guard pages, so that an access outside ends the process. The exception and every byte of the data space are compared with a byte-array model. Non-trivial: the accessed range touches or crosses an end of the data space, wraps around, or is unaligned.",
        families: vec![
            Family { name: "word", quick: 150_000, thorough: 2_000_000, run: word },
            Family { name: "sequence", quick: 60_000, thorough: 800_000, run: sequence },
            Family { name: "files", quick: 30_000, thorough: 300_000, run: files },
        ],
        probes: vec![],
        assumptions: vec!["the first 16 bytes (system variables), headers and compiled code are not stored into"],
    }
}

/// A model of the data space.
struct Mem {
    start: u64,
    bytes: Vec<u8>,
}

impl Mem {
    fn new(vm: &Vm) -> Mem {
        Mem { start: vm.start() as u64, bytes: vm.bytes(vm.start(), vm.limit() - vm.start()).to_vec() }
    }
    fn inside(&self, a: u64, n: u128) -> bool {
        a >= self.start && (a as u128 + n) <= self.start as u128 + self.bytes.len() as u128
    }
    fn get(&self, a: u64, n: usize) -> Option<Vec<u8>> {
        if !self.inside(a, n as u128) {
            return None;
        }
        let i = (a - self.start) as usize;
        Some(self.bytes[i..i + n].to_vec())
    }
    fn put(&mut self, a: u64, b: &[u8]) -> bool {
        if !self.inside(a, b.len() as u128) {
            return false;
        }
        let i = (a - self.start) as usize;
        self.bytes[i..i + b.len()].copy_from_slice(b);
        true
    }
    fn cell(&self, a: u64) -> Option<i64> {
        self.get(a, 8).map(|b| i64::from_le_bytes(b.try_into().unwrap()))
    }
}

struct Places {
    start: u64,
    limit: u64,
    /// Where a program may store: from here on.
    user: u64,
}

fn places(vm: &mut Vm) -> Places {
    Places { start: vm.start() as u64, limit: vm.limit() as u64, user: vm.here() as u64 }
}

fn gen_addr(src: &mut Src, p: &Places, store: bool) -> u64 {
    match src.weighted(&[6, 5, 3, 2, 2, 1]) {
        0 => p.limit.wrapping_add(src.range(-20, 20) as u64),
        1 => p.user + src.below(p.limit - p.user),
        2 => p.start.wrapping_sub(src.range(1, 300) as u64),
        3 => *src.pick(&[0u64, 1, 7, 8, u64::MAX, u64::MAX - 1, u64::MAX - 6, u64::MAX - 7, u64::MAX - 15, 1 << 63, (1 << 63) - 1, (1 << 63) - 8]),
        4 => {
            if store { p.user } else { p.start + 16 + src.below(p.limit - p.start - 16) }
        }
        _ => src.u64(),
    }
}

fn gen_len(src: &mut Src, a: u64, p: &Places) -> i64 {
    match src.weighted(&[5, 5, 2, 2]) {
        0 => src.range(0, 40),
        // To around the end of the data space.
        1 => (p.limit.wrapping_sub(a) as i64).wrapping_add(src.range(-3, 3)),
        2 => src.range(-5, 0),
        _ => *src.pick(&[i64::MAX, i64::MIN, -1, i64::MAX - 7, 1 << 62, 0x10000, 0x11000, i64::MIN + 1]).min(&i64::MAX),
    }
}

enum Eff {
    Ok(Vec<i64>, Vec<f64>, String),
    Bad,
    /// Either of the two is correct.
    Any,
}

/// Effect of one word: text, effect, whether a range end or odd alignment is involved.
fn step(src: &mut Src, m: &mut Mem, p: &Places) -> (String, Eff, bool) {
    let words = [
        "@", "!", "c@", "c!", "f@", "f!", "2@", "2!", "+!", "on", "off", "move", "fill", "count", "type", "?", "!token",
    ];
    let w = *src.pick(&words);
    let store = matches!(w, "!" | "c!" | "f!" | "2!" | "+!" | "on" | "off" | "fill" | "!token");
    let a = gen_addr(src, p, store);
    let x = src.cell();
    let ia = a as i64;
    let end = m.start + m.bytes.len() as u64;
    let edge = |a: u64, n: u64| a < m.start || a.checked_add(n).map_or(true, |e| e >= end) || a % 8 != 0;
    let text;
    let near;
    // System variables, headers and code are left alone.
    let sys = p.start..p.user;
    let eff = match w {
        "@" | "?" => {
            near = edge(a, 8);
            text = format!("{ia} {w}");
            if a >= p.start && a < p.start + 16 { Eff::Any } else {
                match m.cell(a) {
                    Some(v) if w == "@" => Eff::Ok(vec![v], vec![], String::new()),
                    Some(v) => Eff::Ok(vec![], vec![], format!("{v} ")),
                    None => Eff::Bad,
                }
            }
        }
        "c@" | "count" => {
            near = edge(a, 1);
            text = format!("{ia} {w}");
            if a >= p.start && a < p.start + 16 { Eff::Any } else {
                match m.get(a, 1) {
                    Some(b) if w == "c@" => Eff::Ok(vec![b[0] as i64], vec![], String::new()),
                    Some(b) => Eff::Ok(vec![a as i64 + 1, b[0] as i64], vec![], String::new()),
                    None => Eff::Bad,
                }
            }
        }
        "f@" => {
            near = edge(a, 8);
            text = format!("{ia} f@");
            let b = a.wrapping_add(7) & !7;
            if b >= p.start && b < p.start + 16 { Eff::Any } else {
                match m.cell(b) {
                    Some(v) => Eff::Ok(vec![], vec![f64::from_bits(v as u64)], String::new()),
                    None => Eff::Bad,
                }
            }
        }
        "2@" => {
            near = edge(a, 16);
            text = format!("{ia} 2@");
            if a.wrapping_add(16) > p.start && a < p.start + 16 { Eff::Any } else {
                match m.get(a, 16) {
                    Some(_) => Eff::Ok(vec![m.cell(a + 8).unwrap(), m.cell(a).unwrap()], vec![], String::new()),
                    None => Eff::Bad,
                }
            }
        }
        "!" | "+!" | "on" | "off" => {
            near = edge(a, 8);
            text = match w { "on" | "off" => format!("{ia} {w}"), _ => format!("{x} {ia} {w}") };
            if a.wrapping_add(8) > sys.start && a < sys.end { return ("".into(), Eff::Any, false) }
            let v = match w { "!" => x, "on" => -1, "off" => 0, _ => m.cell(a).unwrap_or(0).wrapping_add(x) };
            if m.put(a, &v.to_le_bytes()) { Eff::Ok(vec![], vec![], String::new()) } else { Eff::Bad }
        }
        "c!" => {
            near = edge(a, 1);
            text = format!("{x} {ia} c!");
            if sys.contains(&a) { return ("".into(), Eff::Any, false) }
            if m.put(a, &[x as u8]) { Eff::Ok(vec![], vec![], String::new()) } else { Eff::Bad }
        }
        "f!" => {
            near = edge(a, 8);
            let f = src.range(-99, 99) as f64;
            text = format!("{f}e {ia} f!");
            let b = a.wrapping_add(7) & !7;
            if sys.contains(&b) { return ("".into(), Eff::Any, false) }
            if m.put(b, &f.to_le_bytes()) { Eff::Ok(vec![], vec![], String::new()) } else { Eff::Bad }
        }
        "2!" => {
            near = edge(a, 16);
            text = format!("{} {x} {ia} 2!", x.wrapping_add(1));
            if a.wrapping_add(16) > sys.start && a < sys.end { return ("".into(), Eff::Any, false) }
            let mut b = x.to_le_bytes().to_vec();
            b.extend(x.wrapping_add(1).to_le_bytes());
            if m.put(a, &b) {
                Eff::Ok(vec![], vec![], String::new())
            } else {
                // One half may have been stored.
                m.put(a, &x.to_le_bytes());
                Eff::Bad
            }
        }
        "fill" => {
            let u = gen_len(src, a, p);
            near = edge(a, u as u64);
            text = format!("{ia} {u} {x} fill");
            if u > 0 && (a as u128 + u as u128 > sys.start as u128 && a < sys.end) { return ("".into(), Eff::Any, false) }
            if u <= 0 {
                Eff::Ok(vec![], vec![], String::new())
            } else if m.inside(a, u as u128) {
                m.put(a, &vec![x as u8; u as usize]);
                Eff::Ok(vec![], vec![], String::new())
            } else {
                // The bytes which exist may have been stored.
                if a >= p.start && a < end {
                    let n = (end - a) as usize;
                    m.put(a, &vec![x as u8; n]);
                }
                Eff::Bad
            }
        }
        "move" => {
            let from = gen_addr(src, p, false);
            let base = if src.chance(1, 2) { a } else { from };
            let mut u = gen_len(src, base, p);
            let to = if src.chance(1, 3) { from.wrapping_add(src.range(-30, 30) as u64) } else { a };
            if u > 1 << 20 && src.chance(3, 4) { u = src.range(0, 100); }
            near = edge(from, u as u64) || edge(to, u as u64);
            text = format!("{} {} {u} move", from as i64, to as i64);
            if u <= 0 {
                Eff::Ok(vec![], vec![], String::new())
            } else {
                let hits_sys = to as u128 + u as u128 > sys.start as u128 && to < sys.end;
                let reads_sys = from as u128 + u as u128 > p.start as u128 && from < p.start + 16;
                if m.inside(from, u as u128) && m.inside(to, u as u128) {
                    if hits_sys || reads_sys { return ("".into(), Eff::Any, false) }
                    let b = m.get(from, u as usize).unwrap();
                    m.put(to, &b);
                    Eff::Ok(vec![], vec![], String::new())
                } else {
                    Eff::Bad
                }
            }
        }
        "type" => {
            let u = gen_len(src, a, p);
            near = edge(a, u as u64);
            text = format!("{ia} {u} type");
            if u == 0 {
                Eff::Ok(vec![], vec![], String::new())
            } else if u > 0 && m.inside(a, u as u128) {
                let b = m.get(a, u as usize).unwrap();
                Eff::Ok(vec![], vec![], String::from_utf8_lossy(&b).into_owned())
            } else {
                Eff::Bad
            }
        }
        _ => {
            // The token is the word which precedes !token in the text: !token itself.
            let n = 1 + src.usize(9);
            let tok: String = (0..n).map(|i| (b'a' + i as u8) as char).collect();
            near = edge(a, n as u64 + 1);
            text = format!("{ia} parse-word {tok} !token");
            let len = "!token".len();
            let _ = tok;
            if a.wrapping_add(16) > sys.start && a < sys.end { return ("".into(), Eff::Any, false) }
            // parse-word is interpreted: the token it leaves is replaced by !token when that is parsed.
            let mut b = vec![len as u8];
            b.extend(b"!token");
            if m.inside(a, len as u128 + 8) {
                m.put(a, &b);
                Eff::Ok(vec![], vec![], String::new())
            } else if !m.inside(a, len as u128 + 1) {
                Eff::Bad
            } else {
                // The exact room needed is not specified.
                return ("".into(), Eff::Any, false);
            }
        }
    };
    (text, eff, near)
}

fn check_mem(vm: &Vm, m: &Mem, what: &str) -> R {
    let now = vm.bytes(vm.start(), vm.limit() - vm.start());
    if now != &m.bytes[..] {
        let i = (0..now.len()).find(|&i| now[i] != m.bytes[i]).unwrap();
        return fail("bytes", format!("{what}: byte {i} of the data space ({} from its end) is {} but expected {}", now.len() - i, now[i], m.bytes[i]));
    }
    Ok(())
}

fn same_f(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()))
}

/// Partial stores of a word which fails are not specified.
fn resync(vm: &Vm, m: &mut Mem, before: &Mem, what: &str) -> R {
    // A byte changed only to what the complete operation would have stored.
    let now = vm.bytes(vm.start(), vm.limit() - vm.start());
    for i in 0..now.len() {
        if now[i] != before.bytes[i] && now[i] != m.bytes[i] {
            return fail("bytes", format!("{what}: byte {i} of the data space changed from {} to {}", before.bytes[i], now[i]));
        }
    }
    m.bytes.copy_from_slice(now);
    Ok(())
}

fn one(src: &mut Src, ctx: &mut Ctx, vm: &mut Vm, m: &mut Mem, p: &Places) -> R {
    let before = Mem { start: m.start, bytes: m.bytes.clone() };
    let (text, eff, near) = step(src, m, p);
    if text.is_empty() {
        m.bytes = before.bytes;
        return Ok(());
    }
    note!(ctx, "data space {:#x} to {:#x}, here {:#x}: {}", p.start, p.limit, p.user, text);
    if near { ctx.nontrivial() }
    vm.push(-77);
    let _ = vm.take_output();
    let r = if src.chance(1, 4) { vm.eval_forth(&text) } else { vm.eval(&text) };
    match eff {
        Eff::Any => {
            ensure!(r == Ok(()) || r == Err(-9), "exception", "{text}: {r:?}");
            if r.is_ok() { let _ = check_mem(vm, m, &text)?; }
        }
        Eff::Bad => {
            ctx.label("outside");
            ensure!(r == Err(-9), "accepted", "{text}: {r:?} expected exception -9 (data space {:#x} to {:#x})", p.start, p.limit);
            resync(vm, m, &before, &text)?;
        }
        Eff::Ok(mut s, f, o) => {
            ctx.label("inside");
            ensure!(r.is_ok(), "rejected", "{text}: {r:?} but all bytes are inside the data space {:#x} to {:#x}", p.start, p.limit);
            s.insert(0, -77);
            let (gs, gf, go) = (vm.stack(), vm.fstack(), vm.take_output());
            ensure!(gs == s, "stack", "{text}: {gs:?} expected {s:?}");
            ensure!(same_f(&gf, &f), "floats", "{text}: {gf:?} expected {f:?}");
            ensure!(go == o, "output", "{text}: {go:?} expected {o:?}");
            check_mem(vm, m, &text)?;
        }
    }
    vm.host_reset();
    vm.clear();
    Ok(())
}

fn setup(src: &mut Src) -> (Vm, Mem, Places) {
    let mut vm = Vm::new();
    let k = src.usize(9);
    let _ = vm.eval(&format!("create buf {} allot", 64 + k));
    let p = places(&mut vm);
    // Known bytes in the free space.
    let (h, l) = (vm.here(), vm.limit());
    for (i, b) in vm.bytes_mut(h, l - h).iter_mut().enumerate() {
        *b = (i * 7 + k) as u8 | 1;
    }
    let m = Mem::new(&vm);
    (vm, m, p)
}

fn word(src: &mut Src, ctx: &mut Ctx) -> R {
    let (mut vm, mut m, p) = setup(src);
    one(src, ctx, &mut vm, &mut m, &p)
}

fn sequence(src: &mut Src, ctx: &mut Ctx) -> R {
    let (mut vm, mut m, p) = setup(src);
    for _ in 0..2 + src.usize(12) {
        one(src, ctx, &mut vm, &mut m, &p)?;
    }
    // The host goes on.
    let r = vm.eval(": sq dup * ; 12 sq variable v v ! v @");
    let s = vm.stack();
    ensure!(r.is_ok() && s == [144], "afterwards", "{r:?} {s:?}");
    Ok(())
}

fn files(src: &mut Src, ctx: &mut Ctx) -> R {
    let dir = ctx.scratch().clone();
    let _ = std::env::set_current_dir(&dir);
    let (mut vm, mut m, p) = setup(src);
    let path = dir.join("f");
    let data: Vec<u8> = (0..60u8).collect();
    std::fs::write(&path, &data).map_err(|e| Fail { sig: "scratch".into(), msg: e.to_string() })?;
    let name = path.to_str().unwrap().to_string();
    let r = vm.eval(&format!(": name s\" {name}\" ; name 2 open-file"));
    let s = vm.stack();
    ensure!(r.is_ok() && s.len() == 2 && s[1] == 0, "open", "{r:?} {s:?}");
    let id = s[0];
    vm.clear();
    let user = vm.here() as u64;
    let p = Places { user, ..p };
    m = Mem::new(&vm);
    let a = gen_addr(src, &p, true);
    let u = match src.below(3) { 0 => src.range(0, 80), _ => gen_len(src, a, &p) };
    let w = *src.pick(&["read-file", "write-file", "open-file", "create-file", "delete-file"]);
    let ok = u >= 0 && m.inside(a, u as u128);
    let text = match w {
        "read-file" | "write-file" => format!("{} {u} {id} {w}", a as i64),
        "delete-file" => format!("{} {u} {w}", a as i64),
        _ => format!("{} {u} {} {w}", a as i64, src.range(0, 3)),
    };
    note!(ctx, "data space {:#x} to {:#x}: {}", p.start, p.limit, text);
    if a < p.user && a.wrapping_add(u.max(0) as u64) > p.start && w == "read-file" { return Ok(()) }
    if ok && (w == "open-file" || w == "create-file" || w == "delete-file") {
        // Names made of arbitrary bytes are not used.
        return Ok(());
    }
    if !ok || a.wrapping_add(u as u64) == p.limit { ctx.nontrivial() }
    vm.push(-77);
    let r = vm.eval(&text);
    let s = vm.stack();
    ensure!(r.is_ok(), "exception", "{text}: {r:?}, expected an ior");
    ensure!(s.first() == Some(&-77), "stack", "{text}: {s:?}");
    let results = match w { "write-file" | "delete-file" => 1, _ => 2 };
    ensure!(s.len() == 1 + results, "stack", "{text}: {s:?}");
    let ior = *s.last().unwrap();
    let f = std::fs::File::open(&path);
    ensure!(f.is_ok(), "file", "{text}: the file is gone");
    let mut now = vec![0u8; 70000];
    let n = f.unwrap().read_at(&mut now, 0).unwrap_or(0);
    now.truncate(n);
    if !ok {
        ctx.label("outside");
        ensure!(ior != 0, "ior", "{text}: ior 0 but the memory is outside the data space");
        ensure!(now == data, "file", "{text}: the file changed to {} bytes", now.len());
        check_mem(&vm, &m, &text)?;
    } else {
        ctx.label("inside");
        ensure!(ior == 0, "ior", "{text}: ior {ior}");
        if w == "read-file" {
            let k = (u as usize).min(data.len());
            ensure!(s[1] == k as i64, "count", "{text}: {s:?}");
            m.put(a, &data[..k]);
            check_mem(&vm, &m, &text)?;
        } else {
            let mut want = m.get(a, u as usize).unwrap();
            if want.len() < data.len() { want.extend(&data[want.len()..]) }
            ensure!(now == want, "file", "{text}: file of {} bytes, expected {}", now.len(), want.len());
            check_mem(&vm, &m, &text)?;
        }
    }
    Ok(())
}
