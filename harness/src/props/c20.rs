//! C20: running compiled code makes no heap allocation.
use crate::alloc;
use crate::engine::*;
use crate::model::*;
use crate::vm::Vm;
use rtforth::core::Core;

pub fn property() -> Property {
    Property {
        id: "C20",
        rule: "Structured programs (the generator of C07 without output), definitions made of random integer, float, unit, stack, memory, return stack and time words with arguments that may be invalid, bounded loops and recursion up to the stack limits, and programs of up to five tasks with PAUSE, GET, RELEASE, MS, SUSPEND, RESUME, STOP are compiled; while they run, to their end or to an exception, every allocation, reallocation and release of the host's global allocator is counted: the count must be 0. Non-trivial: at least 200 accesses to the state of the machine were made (about 60 executed words).",
        families: vec![
            Family { name: "program", quick: 120_000, thorough: 600_000, run: program },
            Family { name: "words", quick: 500_000, thorough: 2_500_000, run: words },
            Family { name: "tasks", quick: 120_000, thorough: 600_000, run: tasks },
        ],
        probes: vec![],
        assumptions: vec!["output, parsing, file and compiling words are not covered"],
    }
}

fn compile(vm: &mut Vm, ctx: &mut Ctx, line: &str) -> R {
    note!(ctx, "{}", line);
    match vm.eval(line) {
        Ok(()) => Ok(()),
        Err(e) => fail("rejected", format!("{} raised {}", line, e)),
    }
}

/// Run the word and count.
fn counted(vm: &mut Vm, ctx: &mut Ctx, name: &str) -> R {
    let xt = match vm.xt(name) {
        Some(x) => x,
        None => return fail("undefined", name.to_string()),
    };
    note!(ctx, "run {} on {} F: {:?}", name, show(&vm.stack()), vm.fstack());
    vm.set_error(None);
    let before = vm.steps;
    let (_, n) = alloc::count(|| {
        vm.execute_word(xt);
        vm.run();
        vm.check_stacks();
    });
    let used = before - vm.steps;
    if used >= 200 {
        ctx.nontrivial();
    }
    ctx.label(if vm.err().is_some() { "exception" } else { "completed" });
    ensure!(n == 0, "heap allocation", "running {} made {} allocations or releases (exception {:?})", name, n, vm.err());
    // And what the machine does after an exception.
    if vm.err().is_some() {
        let (_, n) = alloc::count(|| vm.host_reset());
        ensure!(n == 0, "heap allocation", "reset made {} allocations or releases", n);
    }
    Ok(())
}

fn program(src: &mut Src, ctx: &mut Ctx) -> R {
    let (lines, calls) = match crate::props::c07::silent(src) {
        Some(x) => x,
        None => {
            ctx.label("discarded");
            return Ok(());
        }
    };
    let mut vm = Vm::new();
    for l in &lines {
        compile(&mut vm, ctx, l)?;
    }
    for (w, args) in &calls {
        for a in args {
            vm.push(*a);
        }
        counted(&mut vm, ctx, w)?;
        if vm.stack().len() > 40 {
            break;
        }
    }
    Ok(())
}

const FLOATS: &[&str] = &[
    "f+", "f-", "f*", "f/", "fsqrt", "fnegate", "fabs", "fmin", "fmax", "floor", "fceil", "fround", "fdup", "fdrop", "fswap",
    "fnip", "fover", "frot", "s>f", "f>s", "f0<", "f0=", "f<", "f>", "f~", "fsin", "fcos", "ftan", "fasin", "facos", "fatan",
    "fatan2", "f**", "fsincos", "pi", "mm", "um", "meter", "deg", "rad", "sec", "minute", "hr", "msec", "usec", "mm/sec",
    "mm/min", "um/msec", "rpm", "hz", "1/sec", "1e", "-2.5e", "1e300", "0e", "1e-5", "0 fpick",
];

const MEMORY: &[&str] = &[
    "@", "c@", "f@", "2@", "count", "!", "c!", "f!", "2!", "+!", "on", "off", "move", "fill", "append", "/string", "bounds",
];

fn body(src: &mut Src, n: usize, depth: usize, o: &mut String) {
    for _ in 0..n {
        match src.below(14) {
            0..=3 => {
                o.push_str(src.pick(INT_OPS).0);
            }
            4 | 5 => o.push_str(src.pick(FLOATS)),
            6 => {
                let s = match src.below(8) {
                    // Within the buffer.
                    0 => format!("buf {} + @", src.below(150)),
                    1 => format!("buf {} + !", src.below(150)),
                    2 => format!("buf {} + f@ buf {} + f!", src.below(150), src.below(150)),
                    3 => format!("buf {} + buf {} + {} move", src.below(100), src.below(100), src.below(90)),
                    4 => format!("buf {} 65 fill", src.below(190)),
                    5 => format!("buf {} + +!", src.below(150)),
                    6 => format!("here {} allot , c, 2, align f, falign here - drop", src.below(9)),
                    // Outside.
                    _ => format!("{} {} {}", *src.pick(&[0i64, -1, i64::MIN, 1]), *src.pick(&["", "-1", "5 -8"]), src.pick(MEMORY)),
                };
                o.push_str(&s);
            }
            7 => o.push_str(&src.cell().to_string()),
            8 => o.push_str(&src.range(-9, 9).to_string()),
            9 if depth > 0 => {
                let s = match src.below(5) {
                    0 => ("if ", " then"),
                    1 => ("if ", " else drop then"),
                    2 => (">r ", " r> "),
                    3 => ("2>r ", " 2r@ 2r>"),
                    _ => ("dup case 1 of ", " endof 3 of negate endof endcase"),
                };
                o.push_str(s.0);
                let k = src.usize(5);
                body(src, k, depth - 1, o);
                o.push_str(s.1);
            }
            10 if depth > 0 => {
                let n = if depth == 1 { src.range(1, 200) } else { src.range(1, 15) };
                let s = match src.below(3) {
                    0 => (format!("{} 0 do i drop ", n), " loop"),
                    1 => (format!("{} 0 ?do ", n), " 3 +loop"),
                    _ => (format!("{} 0 do i j + drop i 9 = if leave then ", n), " loop"),
                };
                o.push_str(&s.0);
                let k = src.usize(4);
                body(src, k, depth - 1, o);
                o.push_str(s.1);
            }
            11 => {
                let s = *src.pick(&["['] dup execute", "['] f+ execute", "99999 execute", "deferred", "sub", "['] sub execute", "var @ 1+ var !", "rec", "[ ' buf ] literal >body drop", "depth", "me drop", "mtime drop", "utime drop", "pause", "utime ['] noop xtime", "0xtime", "abort", "0labels"]);
                o.push_str(s);
            }
            12 => o.push_str(*src.pick(&["true", "false", "bl", "base @", "decimal", "max-n", "max-u", "noop", "source-id drop", "fvar f@", "2var 2@", "field"])),
            _ => o.push_str(*src.pick(&["drop", "2drop", "dup", "over"])),
        }
        o.push(' ');
    }
}

fn words(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = Vm::new();
    vm.tick = src.below(5000);
    vm.steps = 400_000_000;
    let line = "variable var fvariable fvar 2variable 2var 0 8 +field field create buf 200 allot defer deferred ";
    if let Err(e) = vm.eval(line) {
        return fail("rejected", format!("{}", e));
    }
    // Depths up to the limit of the return stack and beyond.
    let d = if src.chance(1, 3) { src.range(40, 70) } else { src.range(0, 20) };
    // What is executed at that depth.
    let mut bottom = String::new();
    for _ in 0..src.usize(4) {
        bottom += src.pick(&["buf field drop", "buf made drop", "fvar f@ fdrop", "2var 2@ 2drop", "3 0 do leave loop", "3 0 do i drop loop", "1 >r r@ r> 2drop", "var @ drop", "five drop", "3 case 1 of endof 3 of endof endcase", "['] five execute drop", "pause", "1 2 2>r 2r@ 2r> 2drop 2drop", "buf buf 8 + 30 move", "2 0 ?do 2 0 do j drop leave loop loop", "deferred2"]);
        bottom += " ";
    }
    compile(&mut vm, ctx, ": mk create 5 , does> @ + ; mk made 5 constant five : nothing ; defer deferred2 ' nothing ' deferred2 defer!")?;
    compile(&mut vm, ctx, &format!(": down dup 0 > if 1- recurse else {bottom} then ; : rec {} down drop ;", d))?;
    let mut o = String::new();
    let k = src.usize(6);
    body(src, k, 1, &mut o);
    // SUB is not known to itself.
    let o = o.replace("['] sub", "['] nip").replace("sub ", "nip ").replace("deferred", "nip");
    compile(&mut vm, ctx, &format!(": sub {} ;", o))?;
    let _ = vm.eval("' sub ' deferred defer!");
    let mut o = String::new();
    let k = 1 + src.usize(20);
    body(src, k, 3, &mut o);
    compile(&mut vm, ctx, &format!(": t {} ;", o))?;
    for _ in 0..1 + src.usize(2) {
        let (ns, nf) = if src.chance(1, 3) { (src.usize(4), src.usize(4)) } else { (6 + src.usize(20), 6 + src.usize(20)) };
        vm.clear();
        for _ in 0..ns {
            let v = src.small();
            vm.push(v);
        }
        for _ in 0..nf {
            let v = src.float();
            vm.fpush(v);
        }
        counted(&mut vm, ctx, "t")?;
    }
    Ok(())
}

fn tasks(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = Vm::new();
    vm.tick = 100_000 + src.below(2_000_000);
    compile(&mut vm, ctx, "variable fac variable var create buf 200 allot fvariable fvar : halt2 halt ;")?;
    let n = src.usize(5);
    for k in 0..n {
        let mut o = String::new();
        for _ in 0..1 + src.usize(6) {
            let s = match src.below(10) {
                0 | 1 => "pause".to_string(),
                2 => format!("{} ms", src.range(-1, 5)),
                3 => "fac get pause fac release".into(),
                4 => "1 var +!".into(),
                5 => format!("{} 0 do pause loop", 1 + src.below(5)),
                6 => "1 2 + drop 1e 2e f* fvar f!".into(),
                7 => format!("{} resume", 1 + src.below(5)),
                8 => format!("{} suspend pause", 2 + src.below(4)),
                _ => "me drop var @ drop".into(),
            };
            o += &s;
            o += " ";
        }
        let end = *src.pick(&["begin pause again", "stop", "begin 1 var +! pause again", "stop begin pause again"]);
        compile(&mut vm, ctx, &format!(": task{k} {} activate {} {} ;", k + 2, o, end))?;
    }
    let mut o = String::new();
    for k in 0..n {
        o += &format!("task{} ", k);
        for _ in 0..src.usize(3) {
            o += "pause ";
        }
    }
    for _ in 0..src.usize(6) {
        let s = match src.below(7) {
            0 => format!("{} 0 do pause loop", 1 + src.below(30)),
            1 => format!("{} ms", src.range(0, 5)),
            2 => format!("{} suspend", 2 + src.below(4)),
            3 => format!("{} resume", 1 + src.below(5)),
            4 => format!("{} halt2", 2 + src.below(4)),
            5 => "1 0 /".into(),
            _ => "pause".into(),
        };
        o += &s;
        o += " ";
    }
    compile(&mut vm, ctx, &format!(": main {} ;", o))?;
    counted(&mut vm, ctx, "main")
}
