//! C01: integer words against 128-bit reference arithmetic.
use crate::engine::*;
use crate::model::*;
use crate::vm::Vm;

pub fn property() -> Property {
    Property {
        id: "C01",
        rule: "Random data stacks (0 to 60 cells, biased to 0, small, powers of two, min-n, max-n and random 64-bit values) and random sequences of the integer, logic, shift, comparison, stack and return stack words with literals in between, interpreted and compiled; the whole stack and the exception are compared with a 128-bit reference reduced modulo 2^64. Non-trivial: at least 3 words other than literals were executed, or a single word on a stack of at least 2 cells with |cell| >= 2^31.",
        families: vec![
            Family { name: "word", quick: 450_000, thorough: 2_000_000, run: word },
            Family { name: "interpreted", quick: 200_000, thorough: 800_000, run: interpreted },
            Family { name: "compiled", quick: 200_000, thorough: 800_000, run: compiled },
        ],
        probes: vec![],
        assumptions: vec!["64-bit target", "shift counts 0..63, PICK arguments below the depth, 2/ of non-negative or even cells"],
    }
}

fn random_stack(src: &mut Src, max: usize) -> Vec<i64> {
    let n = src.usize(max + 1);
    (0..n).map(|_| src.cell()).collect()
}

fn compare(vm: &mut Vm, got: Result<(), i64>, want_err: Option<i64>, want: &[i64], what: &str) -> R {
    match (got, want_err) {
        (Ok(()), None) => {
            let s = vm.stack();
            ensure!(s == want, "stack", "{what}: stack {} but expected {}", show(&s), show(want));
            ensure!(vm.fstack().is_empty(), "fstack", "{what}: float stack touched: {:?}", vm.fstack());
            let (r, c) = (vm.rdepth(), vm.cdepth());
            ensure!(r == 0 && c == 0, "rstack", "{what}: return/control stack left with {r}/{c} items");
        }
        (Err(e), Some(w)) => {
            ensure!(e == w, "exception", "{what}: exception {e} but expected {w}");
            let s = vm.stack();
            ensure!(s.is_empty() && vm.fstack().is_empty(), "stack after error", "{what}: stack {} after exception {e}", show(&s));
        }
        (Ok(()), Some(w)) => return fail("no exception", format!("{what}: no exception but expected {w}; stack {}", show(&vm.stack()))),
        (Err(e), None) => return fail("exception", format!("{what}: exception {e} but expected stack {}", show(want))),
    }
    Ok(())
}

/// One word on a random stack, interpreted, compiled and through execute.
fn word(src: &mut Src, ctx: &mut Ctx) -> R {
    let (name, need) = *src.pick(INT_OPS);
    let mut s: Vec<i64> = (0..need).map(|_| src.cell()).collect();
    if src.chance(1, 2) {
        // Related arguments.
        let n = s.len();
        if n >= 2 {
            s[n - 1] = s[n - 2].wrapping_add(src.range(-1, 1));
        }
    }
    for _ in 0..src.usize(4) {
        let v = src.cell();
        s.insert(0, v);
    }
    if src.chance(1, 16) {
        while s.len() < 60 {
            let v = src.cell();
            s.insert(0, v);
        }
    }
    match name {
        "pick" => { let n = s.len() as u64 - 1; *s.last_mut().unwrap() = src.below(n) as i64 }
        "lshift" | "rshift" => *s.last_mut().unwrap() = src.below(64) as i64,
        "2/" => { let l = s.last_mut().unwrap(); if *l < 0 { *l &= !1 } }
        _ => {}
    }
    let mut want = s.clone();
    let err = apply_int(name, &mut want).err();
    let mode = src.below(3);
    let name = vary_case(src, name);
    let mut vm = vm_pool(ctx);
    let text = match mode {
        0 => name.clone(),
        1 => format!(": w {name} ; w"),
        _ if name.to_lowercase() == "chars" => name.clone(),
        _ => format!("' {name} execute"),
    };
    note!(ctx, "stack {} then: {}", show(&s), text);
    for &v in &s {
        vm.push(v);
    }
    let marker = "65 emit drop";
    let got = vm.eval(&format!("{text} 65 {marker}"));
    if s.iter().any(|v| v.unsigned_abs() >= 1 << 31) && s.len() >= 2 {
        ctx.nontrivial();
    }
    let out = vm.take_output();
    ensure!(out == if err.is_some() { "" } else { "A" }, "after error", "{text}: output {out:?}");
    compare(&mut vm, got, err, &want, &text)
}

fn vm_pool(_: &Ctx) -> Vm {
    Vm::new()
}

fn interpreted(src: &mut Src, ctx: &mut Ctx) -> R {
    let init = random_stack(src, 12);
    let line = gen_line(src, &init, 24, false, true, 60);
    let text = line.tokens.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(" ");
    note!(ctx, "stack {} then: {}", show(&init), text);
    let mut vm = vm_pool(ctx);
    for &v in &init {
        vm.push(v);
    }
    let got = vm.eval(&format!("{text} .( !)"));
    if line.ops >= 3 {
        ctx.nontrivial();
    }
    if line.error.is_some() {
        ctx.label("division by zero");
    }
    let out = vm.take_output();
    ensure!(out == if line.error.is_some() { "" } else { " !" }, "after error", "output {out:?}");
    compare(&mut vm, got, line.error.map(|e| e.1), &line.stack, &text)
}

fn compiled(src: &mut Src, ctx: &mut Ctx) -> R {
    let init = random_stack(src, 12);
    let line = gen_line(src, &init, 24, true, true, 56);
    let text = line.tokens.join(" ");
    // Split over nested definitions at a point where nothing of ours is on the return stack.
    let split = src.chance(1, 3) && !text.contains("r");
    note!(ctx, "stack {} then compiled: {}", show(&init), text);
    let mut vm = vm_pool(ctx);
    for &v in &init {
        vm.push(v);
    }
    let def = if split {
        let k = src.usize(line.tokens.len() + 1);
        format!(": w1 {} ; : w w1 {} [char] ! emit ;", line.tokens[..k].join(" "), line.tokens[k..].join(" "))
    } else {
        format!(": w {text} [char] ! emit ;")
    };
    let d = vm.eval(&def);
    ensure!(d.is_ok(), "definition rejected", "{def}: {:?}", d);
    let s = vm.stack();
    ensure!(s == init, "compiling touches the stack", "{def}: stack {}", show(&s));
    let got = vm.eval("w");
    if line.ops >= 3 {
        ctx.nontrivial();
    }
    if text.contains(">r") {
        ctx.label("return stack");
    }
    if line.error.is_some() {
        ctx.label("division by zero");
    }
    let out = vm.take_output();
    ensure!(out == if line.error.is_some() { "" } else { "!" }, "after error", "output {out:?}");
    compare(&mut vm, got, line.error.map(|e| e.1), &line.stack, &def)
}
