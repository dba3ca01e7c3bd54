//! C14: all ways to run a program are equivalent.
use crate::engine::*;
use crate::model;
use crate::vm::Vm;
use rtforth::core::Core;
use rtforth::loader::HasLoader;

pub fn property() -> Property {
    Property {
        id: "C14",
        rule: "A generated program (literals, integer, float, memory, output, base and defined words with loops, recursion, DOES>, variables, constants; sometimes raising an exception in the middle) starts with the same stacks and memory in fresh machines and is run as a reference token by token by the host loop, and in four further ways chosen from: evaluate-input, several lines, one definition, random factoring into nested definitions, EXECUTE of every word, DEFER, POSTPONE in immediate words, EVALUATEd with load_str, by execute_word and single steps of the inner interpreter, in a definition run by steps and run in turn, after a history of other work and failures with a reset. All must agree in stacks, output, bytes of the buffer, BASE and exception. Non-trivial: the program has at least four words.",
        families: vec![
            Family { name: "program", quick: 80_000, thorough: 1_500_000, run: program },
            Family { name: "used", quick: 40_000, thorough: 600_000, run: used },
        ],
        probes: vec![],
        assumptions: vec!["programs stay within the stacks between words", "words with a data-dependent stack effect are wrapped so that it is fixed"],
    }
}

const PRELUDE: &[&str] = &[
    "create buf 64 allot variable va fvariable fv 7 constant seven 1.5e fconstant fone 3 4 2constant pair",
    ": sq dup * ; : fac dup 2 < if drop 1 else dup 1- recurse * then ; : sum 0 swap 0 ?do i + loop ;",
    ": cnt 0 begin dup 5 < while 1+ repeat ; : pick3 case 0 of 10 endof 1 of 20 endof 30 swap endcase ; : down begin dup 0> while 1- repeat ;",
    ": mk create , does> @ + ; 5 mk add5 -3 mk sub3 : mkf create falign f, does> faligned f@ ; 2.25e mkf ftwo",
    ": early dup 0< if exit then 1+ ; : lv 10 0 do i 4 = if leave then dup . loop ; : nest 3 0 do 2 0 do i j 10 * + . loop loop ;",
    ": hello .\" hello\" ; : str s\" some text\" type ; : rr >r 5 r> swap - ; : bigdepth 1 2 3 4 5 + + + + ;",
    ": div0 0 / ; : xdup ['] dup execute ;",
];

struct Chunk {
    t: &'static str,
    i: usize,
    o: usize,
    fi: usize,
    fo: usize,
}

const fn c(t: &'static str, i: usize, o: usize) -> Chunk {
    Chunk { t, i, o, fi: 0, fo: 0 }
}
const fn f(t: &'static str, i: usize, o: usize, fi: usize, fo: usize) -> Chunk {
    Chunk { t, i, o, fi, fo }
}

/// Sequences of words with a fixed stack effect for any arguments.
const CHUNKS: &[Chunk] = &[
    c("dup", 1, 2), c("drop", 1, 0), c("swap", 2, 2), c("over", 2, 3), c("nip", 2, 1), c("tuck", 2, 3), c("rot", 3, 3), c("-rot", 3, 3), c("2dup", 2, 4), c("2drop", 2, 0),
    c("2swap", 4, 4), c("2over", 4, 6), c("+", 2, 1), c("-", 2, 1), c("*", 2, 1), c("1+", 1, 1), c("1-", 1, 1), c("2*", 1, 1), c("abs", 1, 1), c("negate", 1, 1), c("min", 2, 1), c("max", 2, 1),
    c("invert", 1, 1), c("and", 2, 1), c("or", 2, 1), c("xor", 2, 1), c("63 and lshift", 2, 1), c("63 and rshift", 2, 1), c("=", 2, 1), c("<>", 2, 1), c("<", 2, 1), c(">", 2, 1), c("<=", 2, 1), c(">=", 2, 1),
    c("0<", 1, 1), c("0=", 1, 1), c("0>", 1, 1), c("0<>", 1, 1), c("within", 3, 1), c("true", 0, 1), c("false", 0, 1), c("depth", 0, 1), c("aligned", 1, 1), c("cells", 1, 1), c("cell+", 1, 1), c("/string", 3, 2),
    c("1 or /", 2, 1), c("1 or mod", 2, 1), c("1 or /mod", 2, 2), c("/", 2, 1), c("mod", 2, 1), c("2 pick", 3, 4), c("0 pick", 1, 2),
    c("buf !", 1, 0), c("buf @", 0, 1), c("buf 9 + !", 1, 0), c("buf 3 + @", 0, 1), c("buf 17 + c!", 1, 0), c("buf 18 + c@", 0, 1), c("buf 16 + +!", 1, 0), c("buf 2! ", 2, 0), c("buf 8 + 2@", 0, 2), c("buf buf 5 + 20 move", 0, 0),
    c("buf 30 + 9 rot fill", 1, 0), c("buf 40 + on", 0, 0), c("buf 48 + off", 0, 0), c("va @", 0, 1), c("va !", 1, 0), c("1 va +!", 0, 0), c("buf count nip", 0, 1), c("buf 10 + 8 type", 0, 0),
    c(".", 1, 0), c("h.", 1, 0), c("12 .r", 1, 0), c("20 h.r", 1, 0), c("127 and emit", 1, 0), c("space", 0, 0), c("cr", 0, 0), c("3 spaces", 0, 0), c("va ?", 0, 0), c("hex", 0, 0), c("decimal", 0, 0), c(".s", 0, 0), c("base @ .", 0, 0),
    c("seven", 0, 1), c("pair", 0, 2), c("sq", 1, 1), c("15 and fac", 1, 1), c("31 and sum", 1, 1), c("cnt", 0, 1), c("3 and pick3", 1, 1), c("15 and down", 1, 1), c("add5", 1, 1), c("sub3", 1, 1), c("early", 1, 1),
    c("lv", 1, 1), c("nest", 0, 0), c("hello", 0, 0), c("str", 0, 0), c("rr", 1, 1), c("bigdepth", 0, 1), c("me", 0, 1), c("noop", 0, 0), c("0 @ drop", 0, 0), c("-1 c@ drop", 0, 0), c("buf 1 1 lshift 40 fill", 0, 0),
    c("2 0 /", 0, 1), c("div0", 1, 1), c("[']-dup", 1, 2), c("abort", 0, 0), c("3 suspend", 0, 0), c("3 resume 3 suspend", 0, 0),
    f("s>f", 1, 0, 0, 1), f("f>s", 0, 1, 1, 0), f("f+", 0, 0, 2, 1), f("f-", 0, 0, 2, 1), f("f*", 0, 0, 2, 1), f("f/", 0, 0, 2, 1), f("fdup", 0, 0, 1, 2), f("fdrop", 0, 0, 1, 0), f("fswap", 0, 0, 2, 2), f("fover", 0, 0, 2, 3),
    f("frot", 0, 0, 3, 3), f("fnip", 0, 0, 2, 1), f("fsqrt", 0, 0, 1, 1), f("fnegate", 0, 0, 1, 1), f("fabs", 0, 0, 1, 1), f("floor", 0, 0, 1, 1), f("fround", 0, 0, 1, 1), f("f<", 0, 1, 2, 0), f("f0=", 0, 1, 1, 0), f("f>", 0, 1, 2, 0),
    f("fmin", 0, 0, 2, 1), f("fmax", 0, 0, 2, 1), f("fsin", 0, 0, 1, 1), f("fatan2", 0, 0, 2, 1), f("fone", 0, 0, 0, 1), f("ftwo", 0, 0, 0, 1), f("fv f@", 0, 0, 0, 1), f("fv f!", 0, 0, 1, 0), f("1.5e3", 0, 0, 0, 1),
    f("-2.5e-3", 0, 0, 0, 1), f("f.", 0, 0, 1, 0), f("12 3 f.r", 0, 0, 1, 0), f("buf 24 + f!", 0, 0, 1, 0), f("buf 32 + f@", 0, 0, 0, 1), f("f~ ", 0, 1, 3, 0), f("fsincos", 0, 0, 1, 2), f("fceil", 0, 0, 1, 1), f("f0<", 0, 1, 1, 0), f("pi", 0, 0, 0, 1),
];

#[derive(Clone)]
struct Program {
    tokens: Vec<String>,
    stack: Vec<i64>,
    fstack: Vec<f64>,
    memory: Vec<u8>,
    nwords: usize,
}

fn gen(src: &mut Src) -> Program {
    let (ns, nf) = (src.usize(6), src.usize(4));
    let stack: Vec<i64> = (0..ns).map(|_| src.cell()).collect();
    let fstack: Vec<f64> = (0..nf).map(|_| src.float()).collect();
    let memory: Vec<u8> = (0..64).map(|_| src.below(128) as u8).collect();
    let (mut d, mut fd) = (ns, nf);
    let mut tokens = vec![];
    let max = if src.chance(1, 200) { 1000 } else if src.scale > 1 { 120 } else { 24 };
    let n = 1 + src.usize(max);
    let mut nwords = 0;
    for _ in 0..n {
        if src.chance(1, 3) && d < 20 {
            let v = src.cell();
            // Every radix reads it.
            tokens.push(format!("#{v}"));
            d += 1;
            continue;
        }
        let c = &CHUNKS[src.usize(CHUNKS.len())];
        let rare = ["/", "mod", "0 @ drop", "-1 c@ drop", "2 0 /", "div0", "abort"].contains(&c.t);
        if rare && !src.chance(1, 4) {
            continue;
        }
        if d < c.i || fd < c.fi || d - c.i + c.o > 20 || fd - c.fi + c.fo > 12 {
            continue;
        }
        d = d - c.i + c.o;
        fd = fd - c.fi + c.fo;
        nwords += 1;
        for t in c.t.split(' ').filter(|t| !t.is_empty()) {
            tokens.push(match t {
                "[']-dup" => "xdup".to_string(),
                // Literals must not depend on BASE.
                t if t.parse::<i64>().is_ok() => format!("#{t}"),
                t => t.to_string(),
            });
        }
    }
    Program { tokens, stack, fstack, memory, nwords }
}

/// Lines of a program for a machine which has evaluated `preparation`: text only.
pub fn lines_of(src: &mut Src, serial: usize) -> Vec<String> {
    let p = gen(src);
    let mut out = vec![p.stack.iter().map(|v| format!("#{v} ")).collect::<String>()];
    out.push(p.fstack.iter().enumerate().map(|(i, _)| format!("{i}.5e ")).collect());
    let mut i = 0;
    while i < p.tokens.len() {
        let mut n = (1 + src.usize(8)).min(p.tokens.len() - i);
        // The address of BASE stays inside a line.
        n += (p.tokens[i + n - 1] == "base") as usize;
        let t = text(&p.tokens[i..i + n]);
        if src.chance(1, 4) {
            out.push(format!(": p{serial}x{i} {t} ;"));
            out.push(format!("p{serial}x{i}"));
        } else {
            out.push(t);
        }
        i += n;
    }
    out
}

pub fn preparation() -> &'static [&'static str] {
    PRELUDE
}

fn is_literal(t: &str) -> bool {
    t.starts_with('#') || t.contains('.') && t.ends_with('3') && t.contains('e')
}

#[derive(PartialEq, Debug)]
struct Seen {
    result: Result<(), i64>,
    stack: Vec<i64>,
    fstack: Vec<u64>,
    out: String,
    memory: Vec<u8>,
    va: i64,
    base: i64,
    compiling: bool,
}

fn prepare(vm: &mut Vm) {
    for l in PRELUDE {
        if let Err(e) = vm.eval(l) {
            std::panic::panic_any(format!("prelude {l}: {e}"));
        }
    }
    let _ = vm.take_output();
}

fn load(vm: &mut Vm, p: &Program) {
    let buf = address(vm, "buf");
    vm.bytes_mut(buf, 64).copy_from_slice(&p.memory);
    let va = address(vm, "va");
    vm.bytes_mut(va, 8).fill(0);
    let fv = address(vm, "fv");
    vm.bytes_mut(fv, 8).fill(0);
    for v in &p.stack {
        vm.push(*v);
    }
    for v in &p.fstack {
        vm.fpush(*v);
    }
}

fn address(vm: &mut Vm, w: &str) -> usize {
    let s = vm.stack();
    if let Err(e) = vm.eval(w) {
        std::panic::panic_any(format!("address of {w}: {e}"));
    }
    let a = *vm.stack().last().unwrap() as usize;
    vm.s_stack().pop();
    assert_eq!(vm.stack(), s);
    a
}

fn look(vm: &mut Vm, result: Result<(), i64>) -> Seen {
    let (lo, hi) = (vm.start() as i64, vm.limit() as i64);
    let stack = vm.stack().iter().map(|&v| if v >= lo && v < hi { v - lo } else { v }).collect();
    let fstack = vm.fstack().iter().map(|x| if x.is_nan() { f64::NAN.to_bits() } else { x.to_bits() }).collect();
    let out = vm.take_output();
    let compiling = vm.is_compiling();
    let base: i64 = rtbase(vm);
    // Addresses of the prelude words.
    if result.is_err() {
        vm.host_reset();
    }
    vm.clear();
    let buf = address(vm, "buf");
    let memory = vm.bytes(buf, 64).to_vec();
    let va = address(vm, "va");
    let vac = vm.cell(va);
    Seen { result, stack, fstack, out, memory, va: vac, base, compiling }
}

fn rtbase(vm: &Vm) -> i64 {
    Vm::base(vm)
}

fn err(vm: &Vm) -> Result<(), i64> {
    match vm.err() {
        None => Ok(()),
        Some(e) => Err(e),
    }
}

/// Tokens as one text.
fn text(t: &[String]) -> String {
    t.join(" ")
}

/// Definitions of sub-words for random ranges of the program; what remains uses them.
fn factor(src: &mut Src, tokens: &[String], defs: &mut Vec<String>, depth: usize) -> Vec<String> {
    let mut out = vec![];
    let mut i = 0;
    while i < tokens.len() {
        if depth > 0 && src.chance(1, 5) {
            let n = (1 + src.usize(8)).min(tokens.len() - i);
            let body = factor(src, &tokens[i..i + n], defs, depth - 1);
            let name = format!("part{}", defs.len());
            let tail = if src.chance(1, 6) { " exit 99" } else { "" };
            defs.push(format!(": {name} {}{tail} ;", text(&body)));
            out.push(name);
            i += n;
        } else {
            out.push(tokens[i].clone());
            i += 1;
        }
    }
    out
}

const MODES: &[&str] = &["evaluate-input", "lines", "definition", "factored", "execute", "defer", "postpone", "load_str", "steps", "definition steps", "mixed lines", "postponed definition", "include", "background"];

fn run_mode(mode: usize, src: &mut Src, ctx: &mut Ctx, p: &Program, vm: &mut Vm) -> Seen {
    let t = &p.tokens;
    macro_rules! setup {
        ($l:expr) => {{
            let l: String = $l;
            note!(ctx, "  {l}");
            if let Err(e) = vm.eval(&l) {
                return Seen { result: Err(e), stack: vec![], fstack: vec![], out: format!("while preparing {l:?}"), memory: vec![], va: 0, base: 0, compiling: false };
            }
            // Names may be redefined.
            vm.take_output();
        }};
    }
    let split = |src: &mut Src| -> Vec<String> {
        let mut lines = vec![];
        let mut cur = vec![];
        for x in t {
            cur.push(x.clone());
            if src.chance(1, 4) {
                lines.push(text(&cur));
                cur.clear();
            }
        }
        lines.push(text(&cur));
        lines
    };
    let result = match MODES[mode] {
        "evaluate-input" => {
            load(vm, p);
            vm.eval_forth(&text(t))
        }
        "lines" | "mixed lines" => {
            let lines = split(src);
            load(vm, p);
            let mut r = Ok(());
            for l in &lines {
                note!(ctx, "  {l}");
                r = if MODES[mode] != "lines" && src.chance(1, 2) { vm.eval_forth(l) } else { vm.eval(l) };
                if r.is_err() {
                    break;
                }
            }
            r
        }
        "definition" => {
            setup!(format!(": prog {} ;", text(t)));
            load(vm, p);
            if src.chance(1, 2) { vm.eval("prog") } else { vm.eval_forth("prog") }
        }
        "factored" => {
            let mut defs = vec![];
            let d = 1 + src.usize(4);
            let rest = factor(src, t, &mut defs, d);
            for d in defs {
                setup!(d);
            }
            if src.chance(1, 2) {
                setup!(format!(": prog {} ;", text(&rest)));
                load(vm, p);
                vm.eval("prog")
            } else {
                load(vm, p);
                note!(ctx, "  {}", text(&rest));
                vm.eval(&text(&rest))
            }
        }
        "execute" => {
            let compiled = src.chance(1, 2);
            let v: Vec<String> = t.iter().map(|x| if is_literal(x) { x.clone() } else if compiled { format!("['] {x} execute") } else { format!("' {x} execute") }).collect();
            if compiled {
                setup!(format!(": prog {} ;", text(&v)));
                load(vm, p);
                vm.eval("prog")
            } else {
                load(vm, p);
                vm.eval(&text(&v))
            }
        }
        "defer" => {
            let mut v = vec![];
            for (k, x) in t.iter().enumerate() {
                if !is_literal(x) && src.chance(1, 2) {
                    setup!(format!("defer dfr{k} ' {x} ' dfr{k} defer!"));
                    v.push(format!("dfr{k}"));
                } else {
                    v.push(x.clone());
                }
            }
            // DOES> of DEFER needs an item on the stacks of its own.
            if src.chance(1, 2) {
                setup!(format!(": prog {} ;", text(&v)));
                load(vm, p);
                vm.eval("prog")
            } else {
                load(vm, p);
                vm.eval(&text(&v))
            }
        }
        "postpone" => {
            let mut v = vec![];
            for (k, x) in t.iter().enumerate() {
                if !is_literal(x) && src.chance(1, 2) {
                    setup!(format!(": pp{k} postpone {x} ; immediate"));
                    v.push(format!("pp{k}"));
                } else {
                    v.push(x.clone());
                }
            }
            setup!(format!(": prog {} ;", text(&v)));
            load(vm, p);
            vm.eval("prog")
        }
        "postponed definition" => {
            setup!(format!(": prog1 {} ;", text(t)));
            setup!(": prog2 postpone prog1 ; immediate : prog3 prog2 ; : prog4 prog3 ;".to_string());
            load(vm, p);
            vm.eval("' prog4 execute")
        }
        "load_str" => {
            let lines = split(src);
            load(vm, p);
            let nl = *src.pick(&["\n", "\r\n"]);
            vm.load_str(&lines.join(nl));
            err(vm)
        }
        "include" => {
            let lines = split(src);
            load(vm, p);
            let path = ctx.scratch().join("prog.fth");
            std::fs::write(&path, lines.join("\n")).unwrap();
            let _ = crate::capture::take();
            let r = vm.eval(&format!("include {}", path.display()));
            let out = crate::capture::take() + &vm.take_output();
            // FLUSH-OUTPUT ends the text of each line with a line end.
            let mut s = look(vm, r);
            s.out = out;
            return s;
        }
        "steps" => {
            load(vm, p);
            let mut r = Ok(());
            vm.set_error(None);
            for x in t {
                if is_literal(x) {
                    r = vm.eval(x);
                } else {
                    let xt = vm.xt(x).expect("word");
                    vm.state().instruction_pointer = 0;
                    vm.execute_word(xt);
                    while vm.forth() {}
                    r = err(vm);
                }
                if r.is_err() {
                    break;
                }
            }
            r
        }
        "definition steps" => {
            setup!(format!(": prog {} ;", text(t)));
            load(vm, p);
            vm.set_error(None);
            let xt = vm.xt("prog").unwrap();
            vm.state().instruction_pointer = 0;
            vm.execute_word(xt);
            let k = src.usize(30);
            for _ in 0..k {
                if !vm.forth() {
                    break;
                }
            }
            if src.chance(1, 2) { vm.run() } else { while vm.forth() {} }
            err(vm)
        }
        _ => {
            // In another task, whose stacks are its own; its results are moved over.
            let v: Vec<String> = t.iter().map(|x| if x == "me" { "#1".into() } else { x.clone() }).collect();
            setup!(format!(": prog {} ; : bg 2 activate prog stop ; : go bg 3 0 do pause loop ;", text(&v)));
            load(vm, p);
            let (st, fs) = (vm.stack(), vm.fstack());
            vm.clear();
            for v in st {
                vm.tasks[1].s_stk.push(v as isize);
            }
            for v in fs {
                vm.tasks[1].f_stk.push(v);
            }
            let r = vm.eval("go");
            if !vm.stack().is_empty() || !vm.fstack().is_empty() || vm.task_index() != 0 {
                return Seen { result: r, stack: vec![], fstack: vec![], out: "the other task changed the operator's stacks".to_string(), memory: vec![], va: 0, base: 0, compiling: false };
            }
            let (st, fs) = vm.task_stacks(1);
            for v in st {
                vm.push(v);
            }
            for v in fs {
                vm.fpush(v);
            }
            r
        }
    };
    look(vm, result)
}

/// Output of an included file: every line of output which is flushed gets a line end.
fn strip(s: &str) -> String {
    s.chars().filter(|c| *c != '\n').collect()
}

fn program(src: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen(src);
    note!(ctx, "stack {:?} floats {:?}", p.stack, p.fstack);
    note!(ctx, "program: {}", text(&p.tokens));
    let mut vm = Vm::new();
    prepare(&mut vm);
    load(&mut vm, &p);
    let mut r = vm.eval(&text(&p.tokens));
    if r.is_ok() {
        r = err(&vm);
    }
    let a = look(&mut vm, r);
    if p.nwords >= 4 {
        ctx.nontrivial();
    }
    for _ in 0..4 {
        let mode = src.usize(MODES.len());
        if MODES[mode] == "background" && a.result.is_err() {
            // Errors in another task end it: see C09.
            continue;
        }
        note!(ctx, "mode {}", MODES[mode]);
        let mut vm = Vm::new();
        prepare(&mut vm);
        let b = run_mode(mode, src, ctx, &p, &mut vm);
        compare(MODES[mode], &a, b)?;
        ctx.label(MODES[mode]);
    }
    if a.result.is_err() {
        ctx.label("exception");
    }
    Ok(())
}

fn compare(mode: &'static str, a: &Seen, mut b: Seen) -> R {
    if mode == "include" && strip(&a.out) == strip(&b.out) {
        b.out = a.out.clone();
    }
    ensure!(a.result == b.result, "exception", "{mode}: {:?}, token by token {:?} ({:?})", b.result, a.result, b.out);
    ensure!(a.out == b.out, "output", "{mode}: prints {:?}, token by token {:?}", b.out, a.out);
    ensure!(a.stack == b.stack, "stack", "{mode}: leaves {}, token by token {}", model::show(&b.stack), model::show(&a.stack));
    ensure!(a.fstack == b.fstack, "fstack", "{mode}: leaves floats {:?}, token by token {:?}", b.fstack, a.fstack);
    ensure!(a.memory == b.memory && a.va == b.va, "memory", "{mode}: memory {:?} {}, token by token {:?} {}", b.memory, b.va, a.memory, a.va);
    ensure!(a.base == b.base && a.compiling == b.compiling, "state", "{mode}: BASE {} state {}, token by token {} {}", b.base, b.compiling, a.base, a.compiling);
    Ok(())
}

/// A machine that was used and reset behaves as a fresh one.
fn used(src: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen(src);
    let mut vm = Vm::new();
    prepare(&mut vm);
    let mode = loop {
        let m = src.usize(MODES.len());
        if MODES[m] != "include" && MODES[m] != "background" {
            break m;
        }
    };
    // Both runs must make the same choices.
    let seed = src.u64();
    let mut a_src = Src::new(seed, src.scale);
    let a = run_mode(mode, &mut a_src, ctx, &p, &mut vm);
    let mut vm = Vm::new();
    prepare(&mut vm);
    for _ in 0..1 + src.usize(5) {
        match src.usize(4) {
            0 => {
                let q = gen(src);
                let m = src.usize(MODES.len() - 2);
                let m = if MODES[m] == "include" { 0 } else { m };
                note!(ctx, "before: {} ({})", text(&q.tokens), MODES[m]);
                let mut s2 = Src::new(src.u64(), 1);
                let _ = run_mode(m, &mut s2, ctx, &q, &mut vm);
            }
            _ => {
                let l = *src.pick(&[
                    "zork", "1 2 3 1 0 /", ": bad if ;", ": bad [ 1 2", "drop drop", ": lp 70 0 do i loop ; lp", "1e 2e f+ fdrop fdrop", "s\" x\"", "hex abort", "' nothing", ": rec dup if 1- recurse then ; 90 rec", "-1 @", ": x 3 0 do 2 0 do abort loop loop ; x",
                    ": d begin", ": l [ 5 ] goto ;", "2 base ! 2", "create", "char", ": open-def 1 2", "1 2 3 abort", ".( text) zork", ": e 5 [ zork", ": case1 case 1 of", "5 constant five five zork", "abort", ": p postpone nothing", ": t 1 0 / ; ' t execute",
                    ": q 5 >r ; q", ": f 1 0 / ; defer d ' f ' d defer! d", "3.5e 0e f/ zork", "] 1 2 zork", ": nn 0 0 do i 100 > if zork", "' dup execute", "0 pick 2drop drop", "64 0 [",
                ]);
                let forth = src.chance(1, 3);
                // What a failure leaves behind may add up.
                let times = if src.chance(1, 6) { 2 + src.usize(30) } else { 1 };
                note!(ctx, "before: {l} ({times} times)");
                for k in 0..times {
                    if k > 0 {
                        vm.host_reset();
                    }
                    let _ = if forth { vm.eval_forth(l) } else { vm.eval(l) };
                }
            }
        }
        vm.host_reset();
        vm.set_bye_handler();
    }
    // The host's reset.
    vm.host_reset();
    let _ = vm.eval("decimal");
    vm.take_output();
    note!(ctx, "stack {:?} floats {:?}", p.stack, p.fstack);
    note!(ctx, "program: {}", text(&p.tokens));
    note!(ctx, "mode {}", MODES[mode]);
    let mut b_src = Src::new(seed, src.scale);
    let b = run_mode(mode, &mut b_src, ctx, &p, &mut vm);
    if p.nwords >= 4 {
        ctx.nontrivial();
    }
    compare(MODES[mode], &a, b)?;
    // The room on the stacks is that of a fresh machine, too.
    let room = |vm: &mut Vm, k: i64| -> (Result<(), i64>, Vec<i64>) {
        vm.host_reset();
        vm.clear();
        let r = vm.eval(&format!(": cdeep dup if 1- recurse then ; decimal {k} cdeep"));
        (r, vm.stack())
    };
    let k = 40 + src.usize(40) as i64;
    let mut fresh = Vm::new();
    let (x, y) = (room(&mut fresh, k), room(&mut vm, k));
    ensure!(x == y, "room", "recursion of depth {k}: a fresh machine {x:?}, the used one {y:?}");
    Ok(())
}
