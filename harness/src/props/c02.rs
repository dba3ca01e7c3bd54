//! C02: stack overflow and underflow against a depth model.
use crate::engine::*;
use crate::model::show;
use crate::vm::Vm;

pub fn property() -> Property {
    Property {
        id: "C02",
        rule: "Random sequences of top-level words (literals, stack words, compiled words with chosen net effects on the data, float and return stacks, nested control structures) starting at depths around 0 and 64, run by the host loop and by evaluate-input; the model tracks the depth of every stack and requires the matching exception right after the word which leaves a stack below 0 or has pushed it beyond 64, and no exception and all items otherwise. Non-trivial: some stack came within one item of a limit or beyond it.",
        families: vec![
            Family { name: "interpreted", quick: 300_000, thorough: 3_000_000, run: interpreted },
            Family { name: "compiled", quick: 250_000, thorough: 2_500_000, run: compiled },
            Family { name: "return", quick: 120_000, thorough: 1_200_000, run: rstack },
            Family { name: "control", quick: 60_000, thorough: 600_000, run: control },
        ],
        probes: vec![],
        assumptions: vec![
            "no cell or float with the value of the canary (305419896, 1.23456789)",
            "words which find too few items but leave a depth of at least 0, or pass below 0 and come back within one compiled word, are not generated",
        ],
    }
}

/// name, data pops, data pushes, float pops, float pushes
const OPS: &[(&str, usize, usize, usize, usize)] = &[
    ("drop", 1, 0, 0, 0), ("2drop", 2, 0, 0, 0), ("dup", 1, 2, 0, 0), ("2dup", 2, 4, 0, 0), ("over", 2, 3, 0, 0),
    ("2over", 4, 6, 0, 0), ("swap", 2, 2, 0, 0), ("rot", 3, 3, 0, 0), ("-rot", 3, 3, 0, 0), ("nip", 2, 1, 0, 0),
    ("tuck", 2, 3, 0, 0), ("+", 2, 1, 0, 0), ("-", 2, 1, 0, 0), ("*", 2, 1, 0, 0), ("and", 2, 1, 0, 0), ("or", 2, 1, 0, 0),
    ("xor", 2, 1, 0, 0), ("max", 2, 1, 0, 0), ("min", 2, 1, 0, 0), ("=", 2, 1, 0, 0), ("within", 3, 1, 0, 0),
    ("negate", 1, 1, 0, 0), ("true", 0, 1, 0, 0), ("bl", 0, 1, 0, 0), ("depth", 0, 1, 0, 0), ("2swap", 4, 4, 0, 0),
    ("base", 0, 1, 0, 0), ("here", 0, 1, 0, 0), ("me", 0, 1, 0, 0), ("source-id", 0, 1, 0, 0), ("mtime", 0, 1, 0, 0),
    ("emit", 1, 0, 0, 0), ("0<", 1, 1, 0, 0), ("<>", 2, 1, 0, 0), (">", 2, 1, 0, 0),
    ("fdrop", 0, 0, 1, 0), ("fdup", 0, 0, 1, 2), ("fover", 0, 0, 2, 3), ("fswap", 0, 0, 2, 2), ("f+", 0, 0, 2, 1),
    ("f*", 0, 0, 2, 1), ("fnip", 0, 0, 2, 1), ("frot", 0, 0, 3, 3), ("pi", 0, 0, 0, 1), ("f<", 0, 1, 2, 0), ("f~", 0, 1, 3, 0),
    ("s>f", 1, 0, 0, 1), ("f>s", 0, 1, 1, 0), ("fmax", 0, 0, 2, 1), ("fsincos", 0, 0, 1, 2), ("fnegate", 0, 0, 1, 1), ("f**", 0, 0, 2, 1),
    ("f0<", 0, 1, 1, 0), ("mm", 0, 0, 1, 1),
];

#[derive(Clone, Default)]
struct Depth {
    s: i64,
    f: i64,
    smax: i64,
    fmax: i64,
    smin: i64,
    fmin: i64,
}

impl Depth {
    fn at(s: i64, f: i64) -> Depth {
        Depth { s, f, smax: s, fmax: f, smin: s, fmin: f }
    }
    fn go(&mut self, op: &(&str, usize, usize, usize, usize)) {
        self.s += op.2 as i64 - op.1 as i64;
        self.f += op.4 as i64 - op.3 as i64;
        self.smax = self.smax.max(self.s);
        self.fmax = self.fmax.max(self.f);
        self.smin = self.smin.min(self.s);
        self.fmin = self.fmin.min(self.f);
    }
    fn codes(&self) -> Vec<i64> {
        let mut v = Vec::new();
        if self.smax > 64 { v.push(-3) }
        if self.s < 0 { v.push(-4) }
        if self.fmax > 64 { v.push(-44) }
        if self.f < 0 { v.push(-45) }
        v
    }
    fn near(&self) -> bool {
        self.smax >= 63 || self.fmax >= 63 || self.smin <= 0 || self.fmin <= 0
    }
}

fn hit(vm: &mut Vm) {
    vm.received += 1;
}

/// The interpreter loop written in Forth uses one cell of the data stack itself.
fn start(src: &mut Src, vm: &mut Vm, forth: bool) -> (i64, i64) {
    vm.add_host_word("hit", hit);
    let pick = |src: &mut Src| match src.weighted(&[3, 3, 1]) {
        0 => src.range(0, 4),
        1 => 64 - src.range(0, 5),
        _ => src.range(5, 58),
    };
    let (mut s, f) = (pick(src), pick(src));
    if forth {
        s = s.min(63);
    }
    for i in 0..s {
        vm.push(1000 + i);
    }
    for i in 0..f {
        vm.fpush(0.5 + i as f64);
    }
    (s, f)
}

/// A word which is applicable at this depth, or the exception it must raise is determined by the depths.
fn pick_op(src: &mut Src, d: &Depth) -> Option<(String, (&'static str, usize, usize, usize, usize))> {
    match src.weighted(&[4, 2, 10]) {
        0 => {
            let v = src.small();
            Some((v.to_string(), ("lit", 0, 1, 0, 0)))
        }
        1 => {
            let v = src.small();
            Some((format!("{v}e"), ("flit", 0, 0, 0, 1)))
        }
        _ => {
            let op = *src.pick(OPS);
            let (s, f) = (d.s - op.1 as i64, d.f - op.3 as i64);
            let (s2, f2) = (s + op.2 as i64, f + op.4 as i64);
            let enough = s >= 0 && f >= 0;
            let fatal = s2 < 0 || f2 < 0;
            // Words defined in Forth need some room themselves.
            if ["max", "min", "tuck"].contains(&op.0) && d.s > 58 {
                return None;
            }
            // A missing item on one stack hidden by a push is not specified.
            if enough || (fatal && (s >= 0 || s2 < 0) && (f >= 0 || f2 < 0)) {
                Some((op.0.to_string(), op))
            } else {
                None
            }
        }
    }
}

fn verdict(vm: &mut Vm, got: Result<(), i64>, codes: &[i64], what: &str) -> R {
    match got {
        Ok(()) => {
            ensure!(codes.is_empty(), "not reported", "{what}: expected one of {codes:?}, no exception");
        }
        Err(e) => {
            ensure!(!codes.is_empty(), "spurious", "{what}: exception {e} but no stack left its bounds");
            ensure!(codes.contains(&e), "code", "{what}: exception {e}, expected one of {codes:?}");
            let (s, f, c) = (vm.stack().len(), vm.fstack().len(), vm.cdepth());
            ensure!(s == 0 && f == 0 && c == 0, "not cleared", "{what}: {s}/{f}/{c} items after the exception");
        }
    }
    Ok(())
}

fn after_reset(vm: &mut Vm) -> R {
    vm.host_reset();
    let _ = vm.take_output();
    let r = vm.eval(": chk 1 2 3e 4e >r r> 65 emit ; : chl 5 0 do i loop ; chk chl 7 ");
    let (s, f, o) = (vm.stack(), vm.fstack(), vm.take_output());
    let o = o.replace("Redefining chk", "");
    ensure!(
        r.is_ok() && s == [1, 2, 0, 1, 2, 3, 4, 7] && f == [3.0, 4.0] && o == "A",
        "recovery",
        "after the reset: {r:?} stack {} floats {f:?} output {o:?}",
        show(&s)
    );
    ensure!(vm.rdepth() == 0 && vm.cdepth() == 0, "recovery", "after the reset: r {} c {}", vm.rdepth(), vm.cdepth());
    let mut t = String::new();
    for i in 0..56 {
        t.push_str(&format!("{i} "));
    }
    for i in 0..62 {
        t.push_str(&format!("{i}e "));
    }
    let r = vm.eval(&t);
    ensure!(r.is_ok(), "recovery", "filling the stacks after the reset: {r:?}");
    vm.clear();
    Ok(())
}

fn interpreted(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = Vm::new();
    let forth = src.chance(1, 3);
    let (s, f) = start(src, &mut vm, forth);
    let mut d = Depth::at(s, f);
    let mut text = String::new();
    let n = 1 + src.usize(14);
    let mut codes = Vec::new();
    let mut near = false;
    let mut marks = 0;
    let (mut low, mut flow) = (s, f);
    for _ in 0..n {
        let Some((t, op)) = pick_op(src, &d) else { continue };
        if forth && d.s + op.2 as i64 - op.1 as i64 == 64 {
            continue;
        }
        low = low.min(d.s - op.1 as i64);
        flow = flow.min(d.f - op.3 as i64);
        d.smax = d.s;
        d.fmax = d.f;
        d.smin = d.s;
        d.fmin = d.f;
        d.go(&op);
        near |= d.near();
        text.push_str(&t);
        text.push(' ');
        codes = d.codes();
        if !codes.is_empty() {
            break;
        }
        if t == "emit" {
            marks += 1;
        }
    }
    let tail = if src.chance(1, 2) { "hit" } else { "drop hit" };
    note!(ctx, "{} data items, {} floats, then: {}", s, f, text);
    let got = if codes.is_empty() {
        if forth { vm.eval_forth(&text) } else { vm.eval(&text) }
    } else {
        let t = format!("{text} {tail}");
        if forth { vm.eval_forth(&t) } else { vm.eval(&t) }
    };
    if near { ctx.nontrivial() }
    if !codes.is_empty() { ctx.label("out of bounds") }
    if codes.contains(&-3) { ctx.label("overflow") }
    if codes.contains(&-4) { ctx.label("underflow") }
    if codes.contains(&-44) { ctx.label("float overflow") }
    if codes.contains(&-45) { ctx.label("float underflow") }
    let out = vm.take_output();
    ensure!(vm.received == 0, "went on", "{text}: evaluation went on after the exception");
    ensure!(out.chars().count() >= marks, "lost", "{text}: output {out:?}");
    verdict(&mut vm, got, &codes, &text)?;
    if codes.is_empty() {
        let (a, b) = (vm.stack(), vm.fstack());
        ensure!(a.len() as i64 == d.s && b.len() as i64 == d.f, "depth", "{text}: {} and {} items, expected {} and {}", a.len(), b.len(), d.s, d.f);
        // Items which no word could reach are kept.
        let ok = a[..low.max(0) as usize].iter().enumerate().all(|(i, &v)| v == 1000 + i as i64);
        let fok = b[..flow.max(0) as usize].iter().enumerate().all(|(i, &v)| v == 0.5 + i as f64);
        ensure!(ok && fok, "items", "{text}: {} / {:?}", show(&a), b);
    } else {
        after_reset(&mut vm)?;
    }
    Ok(())
}

/// Words with a net effect made of many pushes, drops or loops inside a definition.
fn compiled(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = Vm::new();
    let forth = src.chance(1, 3);
    let (s, f) = start(src, &mut vm, forth);
    let mut body = String::new();
    let mut d = Depth::at(s, f);
    let push = ("", 0usize, 1usize, 0usize, 0usize);
    let pop = ("", 1usize, 0usize, 0usize, 0usize);
    let fpush = ("", 0usize, 0usize, 0usize, 1usize);
    let fpop = ("", 0usize, 0usize, 1usize, 0usize);
    let parts = 1 + src.usize(4);
    for k in 0..parts {
        let last = k + 1 == parts;
        // Only the last part may go below zero, so that nothing is pushed while below zero.
        match src.weighted(&[4, 4, 4, 4, 6]) {
            0 => {
                let n = if src.chance(1, 2) { (64 - d.s + src.range(-1, 2)).max(1) } else { src.range(1, 30) };
                let n = n.min(128 - d.smax).max(0);
                if src.chance(1, 2) {
                    // The loop needs two cells for its bounds and then none.
                    d.smax = d.smax.max(d.s + 2);
                    body.push_str(&format!("{n} 0 ?do i loop "));
                } else {
                    for i in 0..n { body.push_str(&format!("{i} ")) }
                }
                for _ in 0..n { d.go(&push) }
            }
            1 => {
                let n = if src.chance(1, 2) { d.s + src.range(-2, if last { 2 } else { 0 }) } else { src.range(0, 30) };
                let n = n.max(0).min(d.s + if last { 90 } else { 0 });
                if src.chance(1, 2) {
                    d.smax = d.smax.max(d.s + 2);
                    body.push_str(&format!("{n} 0 ?do drop loop "));
                } else {
                    for _ in 0..n { body.push_str("drop ") }
                }
                for _ in 0..n { d.go(&pop) }
            }
            2 => {
                let n = if src.chance(1, 2) { (64 - d.f + src.range(-1, 2)).max(1) } else { src.range(1, 30) };
                let n = n.min(128 - d.fmax).max(0);
                for i in 0..n { body.push_str(&format!("{i}e ")); d.go(&fpush) }
            }
            3 => {
                let n = if src.chance(1, 2) { d.f + src.range(-2, if last { 2 } else { 0 }) } else { src.range(0, 30) };
                let n = n.max(0).min(d.f + if last { 90 } else { 0 });
                for _ in 0..n { body.push_str("fdrop "); d.go(&fpop) }
            }
            _ => {
                if let Some((t, op)) = pick_op(src, &d) {
                    let (s2, f2) = (d.s + op.2 as i64 - op.1 as i64, d.f + op.4 as i64 - op.3 as i64);
                    if last || (s2 >= 0 && f2 >= 0) {
                        d.go(&op);
                        body.push_str(&t);
                        body.push(' ');
                    }
                }
            }
        }
        if d.s < 0 || d.f < 0 { break }
    }
    if forth && d.s == 64 {
        body.push_str("drop ");
        d.go(&pop);
    }
    let def = format!(": w {body}; ");
    note!(ctx, "{} data items, {} floats, then: {}w", s, f, def);
    let r = vm.eval(&def);
    ensure!(r.is_ok() && vm.stack().len() as i64 == s, "definition", "{def}: {r:?}");
    // Immediate words are executed by the loops while they compile.
    let immediate = src.chance(1, 4);
    if immediate {
        let r = vm.eval("immediate : ihit hit ; immediate");
        ensure!(r.is_ok(), "definition", "immediate: {r:?}");
        note!(ctx, "immediate, in : v w ihit ;");
        ctx.label("immediate");
    }
    let t = if immediate { ": v w ihit ;" } else { "w hit" };
    let got = if forth { vm.eval_forth(t) } else { vm.eval(t) };
    let codes = d.codes();
    if d.near() { ctx.nontrivial() }
    if !codes.is_empty() { ctx.label("out of bounds") }
    if d.smax > 64 && d.s <= 64 || d.fmax > 64 && d.f <= 64 { ctx.label("beyond 64 and back") }
    let hits = vm.received;
    ensure!((hits == 1) == codes.is_empty(), "went on", "{def}: what follows was executed {hits} times, expected exceptions {codes:?}");
    verdict(&mut vm, got, &codes, &def)?;
    if codes.is_empty() {
        let (a, b) = (vm.stack(), vm.fstack());
        ensure!(a.len() as i64 == d.s && b.len() as i64 == d.f, "depth", "{def}: {} and {} items, expected {} and {}", a.len(), b.len(), d.s, d.f);
        let keep = d.smin.min(s) as usize;
        ensure!(a[..keep.saturating_sub(6)].iter().enumerate().all(|(i, &v)| v == 1000 + i as i64), "items", "{def}: {}", show(&a));
    } else {
        after_reset(&mut vm)?;
    }
    Ok(())
}

fn rstack(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = Vm::new();
    let forth = src.chance(1, 3);
    // Return stack items in use before the word is called.
    let base = if forth { 1 } else { 0 };
    let kind = src.below(7);
    let n = match src.below(3) {
        0 => src.range(0, 8),
        1 => src.range(54, 70),
        _ => src.range(8, 120),
    };
    // (definition, call, highest return stack depth, final depth)
    let (def, call, high, end): (String, String, i64, i64) = match kind {
        0 => (": w dup if 1- recurse then drop ;".replace("drop ;", ";"), format!("{n} w"), n + 1, 0),
        1 => {
            let mut b = String::new();
            for i in 0..n { b.push_str(&format!("{i} >r ")) }
            for _ in 0..n { b.push_str("r> drop ") }
            (format!(": w {b};"), "w".into(), n + 1, 0)
        }
        2 => {
            // Nested loops take three items each.
            let k = (n / 3).min(24);
            let mut b = String::new();
            for _ in 0..k { b.push_str("1 0 do ") }
            for _ in 0..k { b.push_str("loop ") }
            (format!(": w {b};"), "w".into(), 3 * k + 1, 0)
        }
        3 => {
            // Leave items below the return address: the return goes astray.
            let k = 1 + n % 3;
            let mut b = String::new();
            for _ in 0..k + base { b.push_str("r> drop ") }
            (format!(": w {b};"), "w".into(), 1, -k)
        }
        4 => {
            let k = n / 2;
            let mut b = String::new();
            for i in 0..k { b.push_str(&format!("{i} {i} 2>r ")) }
            for _ in 0..k { b.push_str("2r@ 2drop 2r> 2drop ") }
            (format!(": w {b};"), "w".into(), 2 * k + 1, 0)
        }
        5 => {
            let k = n.min(70);
            let mut b = String::from(": w0 ; ");
            for i in 1..=k { b.push_str(&format!(": w{i} w{} ; ", i - 1)) }
            (b, format!("w{k}"), k + 1, 0)
        }
        _ => {
            // does> words and deferred words nest too.
            let k = n.min(60);
            (": mk create 0 , does> drop dup if 1- recurse then ; mk w".replace("recurse", "noop"), format!("{k} w drop"), 2, 0)
        }
    };
    note!(ctx, "{} {}{}", def, call, if forth { " by evaluate-input" } else { "" });
    let r = vm.eval(&def);
    ensure!(r.is_ok(), "definition", "{def}: {r:?}");
    let _ = vm.take_output();
    vm.push(77);
    let got = if forth { vm.eval_forth(&format!("{call} .( !)")) } else { vm.eval(&format!("{call} .( !)")) };
    let mut codes = Vec::new();
    if high + base > 64 { codes.push(-5) }
    if end < 0 { codes.push(-6) }
    if high + base >= 62 || end < 0 { ctx.nontrivial() }
    if !codes.is_empty() { ctx.label("out of bounds") }
    if end < 0 && forth {
        // The stray return leaves evaluate-input itself before it checks the stacks.
        return Ok(());
    }
    let out = vm.take_output();
    ensure!(out.contains(" !") == codes.is_empty(), "went on", "{call}: output {out:?}, expected exceptions {codes:?}");
    verdict(&mut vm, got, &codes, &call)?;
    if codes.is_empty() {
        let s = vm.stack();
        ensure!(s.first() == Some(&77), "items", "{call}: stack {}", show(&s));
        ensure!(vm.rdepth() == 0, "return stack", "{} items left on the return stack", vm.rdepth());
    } else {
        after_reset(&mut vm)?;
    }
    Ok(())
}

fn control(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = Vm::new();
    let forth = src.chance(1, 3);
    let n = match src.below(3) {
        0 => src.range(0, 5),
        1 => src.range(60, 68),
        _ => src.range(5, 90),
    } as usize;
    let (open, close) = *src.pick(&[("if", "then"), ("begin", "until"), ("begin", "again"), ("do", "loop"), ("?do", "+loop"), ("case", "endcase")]);
    let extra = src.chance(1, 4);
    let mut text = String::from(": w ");
    for _ in 0..n { text.push_str(open); text.push(' ') }
    let mut over = n > 64;
    if !over {
        for _ in 0..n { text.push_str(close); text.push(' ') }
        if extra { text.push_str(close); text.push(' '); over = true }
    }
    note!(ctx, "{} of {} ... {}{}", n, open, close, if extra { " and one more" } else { "" });
    if n >= 63 || extra { ctx.nontrivial() }
    let t = format!("{text} [ .( !) ] ; .( !)");
    let got = if forth { vm.eval_forth(&t) } else { vm.eval(&t) };
    let codes = if over { vec![-22] } else { vec![] };
    let out = vm.take_output();
    ensure!(out.is_empty() == over, "went on", "{n} x {open} {close}: output {out:?}");
    verdict(&mut vm, got, &codes, &format!("{n} x {open} {close}"))?;
    if over {
        ctx.label("out of bounds");
        after_reset(&mut vm)?;
    }
    Ok(())
}
