//! C15: the data space is a byte array with disjoint allocations.
use crate::engine::*;
use crate::vm::Vm;

pub fn property() -> Property {
    Property {
        id: "C15",
        rule: "Histories of allocations (HERE ALLOT of positive and negative sizes , C, F, 2, ALIGN FALIGN CREATE VARIABLE 2VARIABLE FVARIABLE CONSTANT 2CONSTANT FCONSTANT DEFER +FIELD MARKER, definitions with strings, allotment up to and beyond the limit) and accesses (@ ! C@ C! F@ F! 2@ 2! +! ON OFF MOVE FILL COUNT APPEND ? ALIGNED FALIGNED at any alignment, with any length, overlapping or not, inside allocated regions, at their edges, in free space and at the very end), interpreted or compiled, with failing lines in between, against a mirror of all bytes of the data space: after each operation every byte of the data space must equal the mirror (for defining words: every byte below the former HERE), HERE and the stacks must be as computed. Non-trivial: at least four regions and eight accesses.",
        families: vec![
            Family { name: "history", quick: 250_000, thorough: 3_000_000, run: history },
            Family { name: "limit", quick: 120_000, thorough: 1_200_000, run: limit },
        ],
        probes: vec![],
        assumptions: vec!["F, is used when HERE is float-aligned; F@ and F! denote the next multiple of 8", "APPEND keeps the counted string within 255 characters"],
    }
}

const WRAP: &[&str] = &[",", "c,", "2,", "f,", "allot", "align", "falign", "here", "@", "!", "c@", "c!", "f@", "f!", "2@", "2!", "+!", "on", "off", "move", "fill", "count", "append", "aligned", "faligned", "?", "cell+", "float+"];

fn prepare(vm: &mut Vm) {
    for w in WRAP {
        if let Err(e) = vm.eval(&format!(": :{w} {w} ;")) {
            std::panic::panic_any(format!("prelude {w}: {e}"));
        }
    }
    vm.take_output();
}

struct M {
    mirror: Vec<u8>,
    start: usize,
    limit: usize,
    here: usize,
    regions: Vec<(usize, usize)>,
    names: usize,
}

impl M {
    fn get(&self, a: usize, n: usize) -> Vec<u8> {
        self.mirror[a - self.start..a - self.start + n].to_vec()
    }
    fn put(&mut self, a: usize, b: &[u8]) {
        let k = a - self.start;
        self.mirror[k..k + b.len()].copy_from_slice(b);
    }
    fn cell(&self, a: usize) -> i64 {
        i64::from_le_bytes(self.get(a, 8).try_into().unwrap())
    }
}

/// A range of `n` bytes the program may use.
fn place(src: &mut Src, m: &M, n: usize) -> usize {
    for _ in 0..4 {
        let k = src.usize(m.regions.len() + 2);
        if k < m.regions.len() {
            let (a, len) = m.regions[k];
            if len >= n {
                // Edges are likely.
                return match src.usize(4) {
                    0 => a,
                    1 => a + len - n,
                    _ => a + src.usize(len - n + 1),
                };
            }
        } else if k == m.regions.len() {
            // Free space.
            let lo = m.here;
            let hi = m.limit;
            if hi - lo >= n {
                return lo + src.usize(hi - lo - n + 1);
            }
        } else if m.limit - m.here >= n {
            return m.limit - n;
        }
    }
    if m.limit - m.here >= n {
        m.limit - n
    } else {
        m.regions[0].0
    }
}

fn history(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = Vm::big(if src.scale > 1 { 16 } else { 6 });
    prepare(&mut vm);
    let _ = vm.eval("create r0 64 allot");
    let here = vm.here();
    let (start, limit) = (vm.start(), vm.limit());
    // Old contents of the free space.
    vm.bytes_mut(here, limit - here).fill(0x5a);
    let mut m = M { mirror: vm.bytes(start, limit - start).to_vec(), start, limit, here, regions: vec![(here - 64, 64)], names: 0 };
    let n = 6 + src.usize(if src.scale > 1 { 120 } else { 40 });
    let (mut accesses, mut fails) = (0, 0);
    for _ in 0..n {
        let forth = src.chance(1, 4);
        let compiled = src.chance(1, 2);
        let op = src.usize(35);
        let w = |t: &str| if compiled { format!(":{t}") } else { t.to_string() };
        let mut stack: Vec<i64> = vec![];
        let mut fstack: Vec<f64> = vec![];
        let mut out = String::new();
        let mut err: Result<(), i64> = Ok(());
        let mut defining = false;
        let mut access = true;
        let old_here = m.here;
        let below = src.small();
        stack.push(below);
        let room = m.limit - m.here;
        let text: String = match op {
            0 if room > 600 => {
                access = false;
                let v = src.cell();
                m.put(m.here, &v.to_le_bytes());
                m.regions.push((m.here, 8));
                m.here += 8;
                format!("#{v} {}", w(","))
            }
            1 if room > 600 => {
                access = false;
                let v = src.cell();
                m.put(m.here, &[v as u8]);
                m.regions.push((m.here, 1));
                m.here += 1;
                format!("#{v} {}", w("c,"))
            }
            2 if room > 600 => {
                access = false;
                let (a, b) = (src.cell(), src.cell());
                // The second item comes first.
                m.put(m.here, &b.to_le_bytes());
                m.put(m.here + 8, &a.to_le_bytes());
                m.regions.push((m.here, 16));
                m.here += 16;
                format!("#{a} #{b} {}", w("2,"))
            }
            3 if room > 600 => {
                access = false;
                let x = src.float();
                m.here = (m.here + 7) / 8 * 8;
                vm.fpush(x);
                m.put(m.here, &x.to_le_bytes());
                m.regions.push((m.here, 8));
                m.here += 8;
                format!("falign {}", w("f,"))
            }
            4 if room > 800 => {
                access = false;
                let k = src.usize(200.min(room - 600));
                m.regions.push((m.here, k));
                m.here += k;
                format!("#{k} {}", w("allot"))
            }
            5 => {
                // Give back the last region.
                access = false;
                match m.regions.last().copied() {
                    Some((a, len)) if m.regions.len() > 1 && a + len == m.here && len > 0 && !defining => {
                        let k = 1 + src.usize(len);
                        m.regions.pop();
                        if k < len {
                            m.regions.push((a, len - k));
                        }
                        m.here -= k;
                        format!("#-{k} {}", w("allot"))
                    }
                    _ => String::new(),
                }
            }
            6 => {
                access = false;
                // Does not fit.
                let k = match src.usize(5) {
                    0 => room as i64 + 1,
                    1 => i64::MAX,
                    2 => i64::MIN,
                    3 => (m.start as i64 - m.here as i64) - 1,
                    _ => room as i64 + src.range(1, 100000),
                };
                err = Err(-8);
                format!("#{k} {}", w("allot"))
            }
            7 => {
                access = false;
                m.here = (m.here + 7) / 8 * 8;
                w(if src.chance(1, 2) { "align" } else { "falign" })
            }
            8 => {
                access = false;
                stack.push(m.here as i64);
                w("here")
            }
            9 | 10 if room > 2000 => {
                access = false;
                defining = true;
                m.names += 1;
                let name = format!("{}{}", src.pick(&["r", "long-name-", "é"]), m.names);
                let k = src.usize(9);
                match k {
                    0 => format!("create {name}"),
                    1 => format!("variable {name}"),
                    2 => format!("2variable {name}"),
                    3 => format!("fvariable {name}"),
                    4 => format!("#{} constant {name}", src.cell()),
                    5 => format!("#{} #{} 2constant {name}", src.cell(), src.cell()),
                    6 => format!("1.5e fconstant {name}"),
                    7 => format!("defer {name}"),
                    _ => format!("create {name} {} allot", src.usize(60)),
                }
            }
            11 if room > 2000 => {
                access = false;
                defining = true;
                m.names += 1;
                let t: String = (0..src.usize(40)).map(|_| *src.pick(&['a', 'é', ' ', 'z'])).collect();
                format!(": s{} s\" {t}\" ; s{} 2drop", m.names, m.names)
            }
            12 | 13 => {
                let a = place(src, &m, 8);
                stack.push(m.cell(a));
                format!("#{a} {}", w("@"))
            }
            14 | 15 => {
                let a = place(src, &m, 8);
                let v = src.cell();
                m.put(a, &v.to_le_bytes());
                format!("#{v} #{a} {}", w("!"))
            }
            34 => {
                stack.extend([0, -1]);
                "pad here 84 + < pad dup aligned =".to_string()
            }
            16 => {
                let a = place(src, &m, 1);
                stack.push(m.get(a, 1)[0] as i64);
                format!("#{a} {}", w("c@"))
            }
            17 => {
                let a = place(src, &m, 1);
                let v = src.cell();
                m.put(a, &[v as u8]);
                format!("#{v} #{a} {}", w("c!"))
            }
            18 => {
                let a = place(src, &m, 16) / 8 * 8;
                let back = src.usize(8).min(a - m.start);
                if a < m.here && !m.regions.iter().any(|(s, l)| *s <= a && a + 8 <= s + l) {
                    String::new()
                } else {
                    fstack.push(f64::from_le_bytes(m.get(a, 8).try_into().unwrap()));
                    format!("#{} {}", a - back, w("f@"))
                }
            }
            19 => {
                let a = place(src, &m, 16) / 8 * 8;
                let back = src.usize(8);
                if a < m.here && !m.regions.iter().any(|(s, l)| *s <= a && a + 8 <= s + l) {
                    String::new()
                } else {
                    let x = src.float();
                    m.put(a, &x.to_le_bytes());
                    vm.fpush(x);
                    format!("#{} {}", a - back, w("f!"))
                }
            }
            20 => {
                let a = place(src, &m, 16);
                stack.push(m.cell(a + 8));
                stack.push(m.cell(a));
                format!("#{a} {}", w("2@"))
            }
            21 => {
                let a = place(src, &m, 16);
                let (x, y) = (src.cell(), src.cell());
                m.put(a, &y.to_le_bytes());
                m.put(a + 8, &x.to_le_bytes());
                format!("#{x} #{y} #{a} {}", w("2!"))
            }
            22 => {
                let a = place(src, &m, 8);
                let v = src.cell();
                let s = m.cell(a).wrapping_add(v);
                m.put(a, &s.to_le_bytes());
                format!("#{v} #{a} {}", w("+!"))
            }
            23 => {
                let a = place(src, &m, 8);
                let (v, t) = *src.pick(&[(-1i64, "on"), (0, "off")]);
                m.put(a, &v.to_le_bytes());
                format!("#{a} {}", w(t))
            }
            24 | 25 | 26 => {
                let k = match src.usize(4) {
                    0 => src.usize(4),
                    1 => src.usize(300),
                    2 if room > 700 && src.chance(1, 4) => src.usize(room / 2),
                    _ => src.usize(40),
                };
                let a = place(src, &m, k);
                // Overlapping in both directions is likely.
                let b = if src.chance(1, 2) {
                    let d = if k > 100 { src.range(-(k as i64), k as i64) } else { src.range(-20, 20) };
                    let b = (a as i64 + d) as usize;
                    let ok = |lo: usize| lo >= m.here && lo + k <= m.limit || m.regions.iter().any(|(s, l)| *s <= lo && lo + k <= s + l);
                    if ok(b) { b } else { a }
                } else {
                    place(src, &m, k)
                };
                if src.chance(1, 10) {
                    // Nothing to do.
                    format!("#{a} #{b} #{} {}", src.range(-300, 0), w("move"))
                } else {
                    let d = m.get(a, k);
                    m.put(b, &d);
                    format!("#{a} #{b} #{k} {}", w("move"))
                }
            }
            27 | 28 => {
                let k = if room > 700 && src.chance(1, 10) { src.usize(room / 2) } else { src.usize(60) };
                let a = place(src, &m, k);
                let v = src.cell();
                if src.chance(1, 10) {
                    format!("#{a} #{} #{v} {}", src.range(-300, 0), w("fill"))
                } else {
                    m.put(a, &vec![v as u8; k]);
                    format!("#{a} #{k} #{v} {}", w("fill"))
                }
            }
            29 => {
                let a = place(src, &m, 1);
                stack.push(a as i64 + 1);
                stack.push(m.get(a, 1)[0] as i64);
                format!("#{a} {}", w("count"))
            }
            30 => {
                // c-addr1 u c-addr2 append
                let b = place(src, &m, 256);
                let inside = b >= m.here || m.regions.iter().any(|(s, l)| *s <= b && b + 256 <= s + l);
                let n = m.get(b, 1)[0] as usize;
                let k = src.usize(256 - n);
                let a = place(src, &m, k);
                if !inside || (a < b + 256 && b < a + k) {
                    String::new()
                } else {
                    let d = m.get(a, k);
                    m.put(b + 1 + n, &d);
                    m.put(b, &[(n + k) as u8]);
                    format!("#{a} #{k} #{b} {}", w("append"))
                }
            }
            31 => {
                let v = src.cell();
                stack.push((((v as i128) + 7).div_euclid(8) * 8) as u64 as i64);
                format!("#{v} {}", w(if src.chance(1, 2) { "aligned" } else { "faligned" }))
            }
            32 => {
                let a = place(src, &m, 8);
                out = format!("{} ", m.cell(a));
                format!("#{a} {}", w("?"))
            }
            33 => {
                // A failing line changes nothing.
                access = false;
                let l = *src.pick(&["zork", "1 0 /", "0 @", ": nope zork", ": nope if ;", "drop drop", "create"]);
                fails += 1;
                let e = vm.eval(l);
                note!(ctx, "{l}: {e:?}");
                vm.host_reset();
                vm.take_output();
                // A definition which failed may leave its header behind.
                ensure!(vm.here() >= m.here, "here", "HERE moved back from {} to {}", m.here - m.start, vm.here() - m.start);
                let now = vm.here();
                let k = now - m.start;
                for i in m.here - m.start..k {
                    m.mirror[i] = vm.bytes(m.start + i, 1)[0];
                }
                m.here = now;
                stack.clear();
                String::new()
            }
            _ => String::new(),
        };
        if text.is_empty() {
            continue;
        }
        let text = format!("#{below} {text}");
        note!(ctx, "{text}{}", if forth { " (evaluate-input)" } else { "" });
        let r = if forth { vm.eval_forth(&text) } else { vm.eval(&text) };
        ensure!(r == err, "exception", "{r:?}, expected {err:?}");
        if err.is_err() {
            ensure!(vm.stack().is_empty(), "stack", "stack {:?} after the exception", vm.stack());
            vm.host_reset();
            stack.clear();
        }
        let s = vm.stack();
        ensure!(s == stack, "stack", "stack {s:?}, expected {stack:?}");
        let f: Vec<u64> = vm.fstack().iter().map(|x| x.to_bits()).collect();
        ensure!(f == fstack.iter().map(|x| x.to_bits()).collect::<Vec<_>>(), "fstack", "floats {:?}, expected {fstack:?}", vm.fstack());
        vm.clear();
        let o = vm.take_output();
        ensure!(o == out, "output", "printed {o:?}, expected {out:?}");
        if defining {
            let new_here = vm.here();
            ensure!(new_here > old_here && new_here - old_here < 1500, "here", "HERE went from {} to {}", old_here - m.start, new_here - m.start);
            let now = vm.bytes(m.start, m.limit - m.start).to_vec();
            if let Some(k) = (0..old_here - m.start).find(|&i| now[i] != m.mirror[i]) {
                return fail("overwritten", format!("the definition changed the byte at offset {k}, HERE was {}", old_here - m.start));
            }
            let above = new_here - m.start;
            if let Some(k) = (above..now.len()).find(|&i| now[i] != m.mirror[i]) {
                return fail("overwritten", format!("the definition changed the byte at offset {k} above HERE {above}"));
            }
            m.mirror = now;
            m.here = new_here;
            defined(&mut vm, &mut m, &text, old_here)?;
        } else {
            let h = vm.here();
            ensure!(h == m.here, "here", "HERE {}, expected {}", h as i64 - m.start as i64, m.here - m.start);
            let now = vm.bytes(m.start, m.limit - m.start);
            if now != &m.mirror[..] {
                let k = (0..now.len()).find(|&i| now[i] != m.mirror[i]).unwrap();
                return fail("bytes", format!("byte at offset {k} (HERE {}) is {}, expected {}", m.here - m.start, now[k], m.mirror[k]));
            }
        }
        if access {
            accesses += 1;
        }
    }
    if m.regions.len() >= 4 && accesses >= 8 {
        ctx.nontrivial();
    }
    if fails > 0 {
        ctx.label("failing lines");
    }
    Ok(())
}

/// Where is the memory of the new word?
fn defined(vm: &mut Vm, m: &mut M, text: &str, old: usize) -> R {
    let t: Vec<&str> = text.split(' ').collect();
    let at = |w: &str| t.iter().position(|x| *x == w).map(|k| t[k + 1].to_string());
    let mut addr = |name: &str| -> Result<usize, Fail> {
        let r = vm.eval(name);
        ensure_ok(r)?;
        let s = vm.stack();
        vm.clear();
        match s.last() {
            Some(a) => Ok(*a as usize),
            None => Err(Fail { sig: "address".into(), msg: format!("{name} leaves nothing") }),
        }
    };
    let (name, len) = if let Some(n) = at("create") {
        let len = t.iter().position(|x| *x == "allot").map(|k| t[k - 1].parse().unwrap()).unwrap_or(0);
        (n, len)
    } else if let Some(n) = at("variable") {
        (n, 8)
    } else if let Some(n) = at("2variable") {
        (n, 16)
    } else if let Some(n) = at("fvariable") {
        (n, 8)
    } else {
        return Ok(());
    };
    let a = addr(&name)?;
    ensure!(a >= old && a + len <= m.here, "region", "{name} has the {len} bytes at offset {}, HERE was {} and is {}", a as i64 - m.start as i64, old - m.start, m.here - m.start);
    if t.contains(&"variable") || t.contains(&"2variable") || t.contains(&"fvariable") {
        ensure!(m.get(a, len).iter().all(|b| *b == 0), "initial", "{name} starts as {:?}", m.get(a, len));
        ensure!(a % 8 == 0, "alignment", "{name} is at an unaligned address");
    }
    m.regions.push((a, len));
    Ok(())
}

fn ensure_ok(r: Result<(), i64>) -> R {
    ensure!(r == Ok(()), "exception", "{r:?}");
    Ok(())
}

/// Allotment and accesses at the limits of the data space.
fn limit(src: &mut Src, ctx: &mut Ctx) -> R {
    let pages = 4 + src.usize(4);
    let mut vm = Vm::big(pages);
    let (start, limit) = (vm.start() as i64, vm.limit() as i64);
    ensure!((limit - start) as usize == pages * 4096, "size", "{pages} pages have {} bytes", limit - start);
    let first = vm.here() as i64;
    let mut here = first;
    let n = 2 + src.usize(10);
    let mut failed = 0;
    for _ in 0..n {
        let k = match src.usize(7) {
            0 => limit - here,
            1 => limit - here + 1,
            2 => first - here,
            3 => limit - here - src.range(0, 20),
            4 => src.range(-5000, 5000),
            5 => src.cell(),
            _ => limit - here + src.range(1, 20),
        };
        // Not into the dictionary.
        let to = here as i128 + k as i128;
        if to < first as i128 && to >= start as i128 {
            continue;
        }
        let fits = to >= start as i128 && to <= limit as i128;
        let text = format!("#{k} allot");
        note!(ctx, "{text}");
        let r = vm.eval(&text);
        let expect = if fits { Ok(()) } else { Err(-8) };
        ensure!(r == expect, "allot", "{text} with HERE {} below the limit: {r:?}, expected {expect:?}", limit - here);
        if !fits {
            failed += 1;
            ensure!(vm.stack().is_empty(), "stack", "stack {:?}", vm.stack());
            vm.host_reset();
        } else {
            here = to as i64;
        }
        ensure!(vm.here() as i64 == here, "here", "HERE is {} below the limit, expected {}", limit - vm.here() as i64, limit - here);
        // The last bytes can be used and nothing behind them.
        let d = src.range(-12, 4);
        let a = limit - 8 + d;
        let v = src.cell();
        let text = format!("#{v} #{a} ! #{a} @");
        let r = vm.eval(&text);
        let ok = a + 8 <= limit;
        if ok {
            ensure!(r == Ok(()) && vm.stack() == [v], "end", "{text}: {r:?} {:?}", vm.stack());
        } else {
            ensure!(r == Err(-9), "end", "{text} with the address {} below the limit: {r:?}", limit - a);
            vm.host_reset();
        }
        vm.clear();
        if here == limit {
            let r = vm.eval("here 1- c@ drop here");
            ensure!(r == Ok(()) && vm.stack() == [limit], "here", "HERE at the limit: {r:?}");
            let r = vm.eval("here c@");
            ensure!(r == Err(-9), "end", "C@ at the limit: {r:?}");
            vm.host_reset();
        }
        ctx.nontrivial();
    }
    if failed > 0 {
        ctx.label("did not fit");
    }
    let r = vm.eval("1 2 +");
    ensure!(r == Ok(()) && vm.stack() == [3], "after", "{r:?} {:?}", vm.stack());
    Ok(())
}
