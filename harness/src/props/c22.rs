//! C22: the Rust interface and Forth text act on one machine.
use crate::engine::*;
use crate::vm::Vm;
use rtforth::core::{Core, Stack};
use rtforth::exception::{self, Exception};
use rtforth::loader::HasLoader;
use rtforth::memory::{DataSpace, Memory};
use rtforth::NUM_TASKS;

pub fn property() -> Property {
    Property {
        id: "C22",
        rule: "Family stack: histories of every method of Stack<isize> and Stack<f64> at all depths against a vector, with the overflow and underflow flags. Family api: random operations are done to one machine through the Rust interface (stacks, data space, compilation, source text, tasks, output, reset) and to another one as Forth text; all observable state is compared after every operation. Family words: histories of words added by the four methods of the host and by definitions over colliding names, used by text, find, execute_word and run, interpreted and compiled, with exceptions of all 58 kinds raised by host words. Family hosts: two or three machines, of the harness's host or the crate's mock_vm, get the lines of their programs in a random order and do what each program does alone. Family raw: DataSpace by itself, every method, up to its ends. Non-trivial: at least 8 operations, two kinds of them on each side.",
        families: vec![
            Family { name: "stack", quick: 200_000, thorough: 2_000_000, run: stack },
            Family { name: "api", quick: 60_000, thorough: 500_000, run: api },
            Family { name: "words", quick: 100_000, thorough: 800_000, run: words },
            Family { name: "hosts", quick: 30_000, thorough: 250_000, run: hosts },
            Family { name: "raw", quick: 100_000, thorough: 1_000_000, run: raw },
        ],
        probes: vec![],
        assumptions: vec!["depths of a Stack between -127 and 128", "pushed values differ from the canary (0x12345678, 1.23456789) when flags are judged"],
    }
}

/// Codes and texts of the exceptions.
const EXCEPTIONS: &[(Exception, i64, &str)] = &[
    (exception::ABORT, -1, "Aborted"),
    (exception::ABORT_QUOTE, -2, "Aborted"),
    (exception::STACK_OVERFLOW, -3, "Stack overflow"),
    (exception::STACK_UNDERFLOW, -4, "Stack underflow"),
    (exception::RETURN_STACK_OVERFLOW, -5, "Return stack overflow"),
    (exception::RETURN_STACK_UNDERFLOW, -6, "Return stack underflow"),
    (exception::DO_LOOP_NESTED_TOO_DEEPLY, -7, "Do-loop nested too deeply"),
    (exception::DICTIONARY_OVERFLOW, -8, "Dictionary overflow"),
    (exception::INVALID_MEMORY_ADDRESS, -9, "Invalid memory address"),
    (exception::DIVISION_BY_ZERO, -10, "Division by zero"),
    (exception::RESULT_OUT_OF_RANGE, -11, "Result out of range"),
    (exception::ARGUMENT_TYPE_MISMATCH, -12, "Argument type mismatch"),
    (exception::UNDEFINED_WORD, -13, "Undefined word"),
    (exception::INTERPRETING_A_COMPILE_ONLY_WORD, -14, "Interpreting a compile only word"),
    (exception::INVALID_FORGET, -15, "Invalid FORGET"),
    (exception::ATTEMPT_TO_USE_ZERO_LENGTH_STRING, -16, "Attempt to use zero length string"),
    (exception::PICTURED_NUMERIC_OUTPUT_STRING_OVERFLOW, -17, "Picture numeric output string overflow"),
    (exception::PARSED_STRING_OVERFLOW, -18, "Parsed string overflow"),
    (exception::DEFINITION_NAME_TOO_LONG, -19, "Definition name too long"),
    (exception::WRITE_TO_A_READ_ONLY_LOCATION, -20, "Write to a read only location"),
    (exception::UNSUPPORTED_OPERATION, -21, "Unsupported operation"),
    (exception::CONTROL_STRUCTURE_MISMATCH, -22, "Control structure mismatch"),
    (exception::ADDRESS_ALIGNMENT_EXCEPTION, -23, "Address alignment exception"),
    (exception::INVALID_NUMERIC_ARGUMENT, -24, "Invalid numeric argument"),
    (exception::RETURN_STACK_IMBALANCE, -25, "Return stack imbalance"),
    (exception::LOOP_PARAMETERS_UNAVAILABLE, -26, "Loop parameters unavailable"),
    (exception::INVALID_RECURSION, -27, "Invalid recursion"),
    (exception::USER_INTERRUPT, -28, "User interrupt"),
    (exception::COMPILER_NESTING, -29, "Compiler nesting"),
    (exception::OBSOLESCENT_FEATURE, -30, "Obsolescent feature"),
    (exception::TO_BODY_USED_ON_NON_CREATED_DEFINITION, -31, ">BODY used on non-CREATEd definition"),
    (exception::INVALID_NAME_ARGUMENT, -32, "Invalid name argument"),
    (exception::BLOCK_READ_EXCEPTION, -33, "Block read exception"),
    (exception::BLOCK_WRITE_EXCEPTION, -34, "Block write exception"),
    (exception::INVALID_BLOCK_NUMBER, -35, "Invalid block number"),
    (exception::INVALID_FILE_POSITION, -36, "Invalid file position"),
    (exception::FILE_IO_EXCEPTION, -37, "File I/O exception"),
    (exception::NON_EXISTENT_FILE, -38, "Non-existent file"),
    (exception::UNEXPECTED_END_OF_FILE, -39, "Unexpected end of file"),
    (exception::INVALID_BASE_FOR_FLOATING_POINT_CONVERSION, -40, "Invalid BASE for floating point conversion"),
    (exception::LOSS_OF_PRECISION, -41, "Loss of precision"),
    (exception::FLOATING_POINT_DIVIDED_BY_ZERO, -42, "Floating point divided by zero"),
    (exception::FLOATING_POINT_RESULT_OUT_OF_RANGE, -43, "Floating point result out of range"),
    (exception::FLOATING_POINT_STACK_OVERFLOW, -44, "Floating point stack overflow"),
    (exception::FLOATING_POINT_STACK_UNDERFLOW, -45, "Floating point stack underflow"),
    (exception::FLOATING_POINT_INVALID_ARGUMENT, -46, "Floating point invalid argument"),
    (exception::COMPILATION_WORD_LIST_DELETED, -47, "Compilation word list deleted"),
    (exception::INVALID_POSTPONE, -48, "Invalid POSTPONE"),
    (exception::SEARCH_ORDER_OVERFLOW, -49, "Search order overflow"),
    (exception::SEARCH_ORDER_UNDERFLOW, -50, "Search order underflow"),
    (exception::COMPILATION_WORD_LIST_CHANGED, -51, "Compilation word list changed"),
    (exception::CONTROL_FLOW_STACK_OVERFLOW, -52, "Control flow stack overflow"),
    (exception::EXCEPTION_STACK_OVERFLOW, -53, "Exception stack overflow"),
    (exception::FLOATING_POINT_UNDERFLOW, -54, "Floating point underflow"),
    (exception::FLOATING_POINT_UNIDENTIFIED_FAULT, -55, "Floating point unidentified fault"),
    (exception::QUIT, -56, "QUIT"),
    (exception::EXCEPTION_IN_SENDING_OR_RECEIVING_A_CHARACTER, -57, "Exception in sending or receiving a character"),
    (exception::BRACKET_IF_ELSE_OR_THEN_EXCEPTION, -58, "[IF],[ELSE],[THEN] exception"),
];

// ---------------------------------------------------------------- Stack

fn stack(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = 4 + src.usize(60);
    let near = *src.pick(&[0i64, 0, 3, 60, 64]);
    if src.chance(1, 3) {
        let mut s: Stack<f64> = Stack::new(1.234567890);
        drive(src, ctx, n, near, &mut s, |src| src.range(-1000, 1000) as f64 / 8.0, |s, i| s[i], |v| format!("{v:.7} "))
    } else {
        let mut s: Stack<isize> = Stack::new(0x12345678);
        drive(
            src,
            ctx,
            n,
            near,
            &mut s,
            |src| {
                let v = src.cell() as isize;
                if v == 0x12345678 {
                    7
                } else {
                    v
                }
            },
            |s, i| s[i],
            |v| format!("{v} "),
        )
    }
}

fn drive<T: Default + Copy + PartialEq + std::fmt::Display + std::fmt::Debug>(src: &mut Src, ctx: &mut Ctx, n: usize, near: i64, s: &mut Stack<T>, value: fn(&mut Src) -> T, at: fn(&Stack<T>, u8) -> T, show: fn(&T) -> String) -> R
where
    Stack<T>: std::fmt::Debug,
{
    // Items at depths 0..; below the bottom only the depth is known.
    let mut m: Vec<T> = vec![];
    let mut depth = 0i64;
    let (mut over, mut under) = (false, false);
    let mut kinds = 0u32;
    for _ in 0..near {
        let v = value(src);
        s.push(v);
        m.push(v);
        depth += 1;
    }
    for _ in 0..n {
        let k = src.weighted(&[6, 3, 2, 6, 3, 2, 2, 2, 2, 1, 2]);
        kinds |= 1 << k;
        match k {
            0..=2 => {
                let v: Vec<T> = (0..k + 1).map(|_| value(src)).collect();
                if depth + k as i64 + 1 > 100 {
                    continue;
                }
                note!(ctx, "push {v:?}");
                match k {
                    0 => s.push(v[0]),
                    1 => s.push2(v[0], v[1]),
                    _ => s.push3(v[0], v[1], v[2]),
                }
                for x in v {
                    if depth >= 0 {
                        m.truncate(depth as usize);
                        m.push(x);
                    }
                    depth += 1;
                    // The item below the bottom
                    under |= depth == 0;
                }
                over |= depth > 64;
            }
            3..=5 => {
                let c = k as i64 - 2;
                if depth - c < -100 {
                    continue;
                }
                let got: Vec<T> = match k {
                    3 => vec![s.pop()],
                    4 => {
                        let (a, b) = s.pop2();
                        vec![a, b]
                    }
                    _ => {
                        let (a, b, c) = s.pop3();
                        vec![a, b, c]
                    }
                };
                note!(ctx, "pop {got:?}");
                for (i, g) in got.iter().enumerate() {
                    let d = depth - c + i as i64;
                    if d >= 0 {
                        ensure!(*g == m[d as usize], "pop", "item {d} popped is {g:?}, expected {:?}", m[d as usize]);
                    }
                }
                depth -= c;
                if depth < 0 {
                    // What is under the top now is not judged.
                    m.clear();
                } else {
                    m.truncate(depth as usize);
                }
            }
            6 => {
                if depth > 0 {
                    ensure!(s.last() == m.last().copied(), "last", "last {:?}, expected {:?}", s.last(), m.last());
                }
            }
            7 => {
                if depth > 0 {
                    let i = src.usize(depth as usize);
                    ensure!(s.get(i as u8) == Some(m[i]), "get", "get({i}) {:?}, expected {:?}", s.get(i as u8), m[i]);
                    ensure!(at(s, i as u8) == m[i], "index", "[{i}] {:?}, expected {:?}", at(s, i as u8), m[i]);
                }
            }
            8 => {
                if depth >= 0 {
                    ensure!(s.as_slice() == &m[..], "slice", "as_slice {:?}, expected {:?}", s.as_slice(), m);
                }
            }
            9 => {
                note!(ctx, "reset");
                s.reset();
                depth = 0;
                m.clear();
                over = false;
                under = false;
            }
            _ => {
                if depth >= 0 {
                    let shown = format!("{s:?}");
                    let want: String = m.iter().map(show).collect();
                    ensure!(shown.trim() == want.trim() || depth > 64, "debug", "shown as {shown:?}, expected {want:?}");
                }
            }
        }
        if depth < 0 && !m.is_empty() {
            m.clear();
        }
        // A stack which came back from below the bottom holds unknown items.
        while (m.len() as i64) < depth {
            m.push(s.get(m.len() as u8).unwrap());
        }
        ensure!(s.len() == (depth & 255) as u8, "len", "len {} at depth {depth}", s.len());
        ensure!(s.is_empty() == (depth == 0), "empty", "is_empty {} at depth {depth}", s.is_empty());
        // Definitely over or under now; never without having been.
        ensure!(s.overflow() == (over || (depth > 64)), "overflow", "overflow() {} at depth {depth}, has been over: {over}", s.overflow());
        ensure!(s.underflow() == (under || depth < 0), "underflow", "underflow() {} at depth {depth}, has been under: {under}", s.underflow());
    }
    if n >= 8 && kinds.count_ones() >= 4 {
        ctx.nontrivial();
    }
    ctx.label(if over { "over" } else if under { "under" } else { "within" });
    Ok(())
}

// ---------------------------------------------------------------- one machine by interface, one by text

struct Two {
    a: Vm,
    b: Vm,
    done: usize,
    /// End of the last definition, as a distance from the first address of either machine
    floor: usize,
}

fn text(f: f64) -> String {
    format!("{f}e")
}

impl Two {
    fn b(&mut self, ctx: &Ctx, line: &str) -> Result<Result<(), i64>, Fail> {
        let _ = ctx;
        Ok(self.b.eval(line))
    }
    fn same(&mut self, h0: (usize, usize), what: &str) -> R {
        let (a, b) = (&mut self.a, &mut self.b);
        ensure!(a.stack() == b.stack(), "data stack", "after {what}: {:?}, as text {:?}", a.stack(), b.stack());
        let bits = |v: Vec<f64>| v.iter().map(|f| f.to_bits()).collect::<Vec<_>>();
        ensure!(bits(a.fstack()) == bits(b.fstack()), "float stack", "after {what}: {:?}, as text {:?}", a.fstack(), b.fstack());
        ensure!(a.here() - a.start() == b.here() - b.start(), "here", "after {what}: HERE at {}, as text {}", a.here() - a.start(), b.here() - b.start());
        ensure!(a.err() == b.err(), "error", "after {what}: error {:?}, as text {:?}", a.err(), b.err());
        ensure!(a.is_compiling() == b.is_compiling(), "state", "after {what}: compiling {}, as text {}", a.is_compiling(), b.is_compiling());
        ensure!(a.rdepth() == b.rdepth() && a.cdepth() == b.cdepth(), "stacks", "after {what}: return {} control {}, as text {} {}", a.rdepth(), a.cdepth(), b.rdepth(), b.cdepth());
        ensure!(a.wordlist().len() == b.wordlist().len(), "words", "after {what}: {} words, as text {}", a.wordlist().len(), b.wordlist().len());
        let (xa, xb) = (Vm::base(a), Vm::base(b));
        ensure!(xa == xb, "base", "after {what}: BASE {xa}, as text {xb}");
        for i in 0..NUM_TASKS {
            ensure!(a.is_awake(i) == b.is_awake(i), "awake", "after {what}: task {i} awake {}, as text {}", a.is_awake(i), b.is_awake(i));
        }
        let (oa, ob) = (a.output_buffer().clone(), b.output_buffer().clone());
        ensure!(oa == ob, "output", "after {what}: output {oa:?}, as text {ob:?}");
        let n = (a.here() - a.start()).saturating_sub(h0.0 - a.start());
        let (ba, bb) = (a.bytes(h0.0, n), b.bytes(h0.1, n));
        if ba != bb {
            let (oa, ob) = (a.start() as i64, b.start() as i64);
            for i in 0..n {
                if ba[i] == bb[i] {
                    continue;
                }
                // An address in a body
                let c = (h0.0 + i) & !7;
                let e = c - a.start() + b.start();
                let same = c >= h0.0 && c + 8 <= h0.0 + n && a.cell(c) - oa == b.cell(e) - ob && a.cell(c) >= oa && a.cell(c) <= a.limit() as i64;
                ensure!(same, "bytes", "after {what}: byte +{i} is {}, as text {}", ba[i], bb[i]);
            }
        }
        Ok(())
    }
}

fn api(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut t = Two { a: Vm::new(), b: Vm::new(), done: 0, floor: 0 };
    let h0 = (t.a.here(), t.b.here());
    let n = 3 + src.usize(30);
    let mut kinds = 0u64;
    let mut serial = 0;
    for _ in 0..n {
        let depth = t.a.stack().len();
        let fdepth = t.a.fstack().len();
        let used = t.a.here() - h0.0 - t.floor;
        let k = src.usize(30);
        t.a.eval("decimal").ok();
        t.b.eval("decimal").ok();
        let mut what;
        match k {
            0 => {
                let c = 1 + src.usize(3);
                if depth + c > 60 {
                    continue;
                }
                let v: Vec<i64> = (0..c).map(|_| src.cell()).collect();
                what = format!("push {v:?}");
                let s = t.a.s_stack();
                match c {
                    1 => s.push(v[0] as isize),
                    2 => s.push2(v[0] as isize, v[1] as isize),
                    _ => s.push3(v[0] as isize, v[1] as isize, v[2] as isize),
                }
                let line = format!("{}", v.iter().map(|v| format!("{v} ")).collect::<String>());
                t.b(ctx, &line)?.ok();
            }
            1 => {
                let c = 1 + src.usize(3);
                if depth < c {
                    continue;
                }
                what = format!("pop {c}");
                let s = t.a.s_stack();
                let got: Vec<isize> = match c {
                    1 => vec![s.pop()],
                    2 => {
                        let (a, b) = s.pop2();
                        vec![a, b]
                    }
                    _ => {
                        let (a, b, c) = s.pop3();
                        vec![a, b, c]
                    }
                };
                let bs = t.b.stack();
                let want: Vec<isize> = bs[depth - c..].iter().map(|&v| v as isize).collect();
                ensure!(got == want, "pop", "pop of {c} gives {got:?}; the words left {want:?}");
                t.b(ctx, &"drop ".repeat(c))?.ok();
            }
            2 => {
                if fdepth + 2 > 60 {
                    continue;
                }
                let v = [src.range(-100_000, 100_000) as f64 / 8.0, src.range(-100, 100) as f64];
                what = format!("fpush {v:?}");
                t.a.f_stack().push2(v[0], v[1]);
                t.b(ctx, &format!("{} {}", text(v[0]), text(v[1])))?.ok();
            }
            3 => {
                if fdepth == 0 {
                    continue;
                }
                what = "fpop".to_string();
                let got = t.a.f_stack().pop();
                let want = *t.b.fstack().last().unwrap();
                ensure!(got.to_bits() == want.to_bits(), "pop", "pop gives {got}; the words left {want}");
                t.b(ctx, "fdrop")?.ok();
            }
            4 => {
                if depth == 0 {
                    continue;
                }
                // An item is replaced.
                let i = src.usize(depth);
                let v = src.cell();
                what = format!("s_stack()[{i}] = {v}");
                t.a.s_stack()[i as u8] = v as isize;
                let ups = depth - 1 - i;
                // The items above are put aside.
                let save: Vec<i64> = t.b.stack()[i + 1..].to_vec();
                let line = format!("{} {v} {}", "drop ".repeat(ups + 1), save.iter().map(|v| format!("{v} ")).collect::<String>());
                t.b(ctx, &line)?.ok();
            }
            5 => {
                if t.a.here() - h0.0 > 20_000 {
                    continue;
                }
                let v = src.cell();
                what = format!("compile cell {v}");
                match src.usize(2) {
                    0 => t.a.data_space().compile_isize(v as isize),
                    _ => t.a.data_space().compile_usize(v as usize),
                }
                t.b(ctx, &format!("{v} ,"))?.ok();
            }
            6 => {
                let v = src.usize(256);
                what = format!("compile_u8 {v}");
                t.a.data_space().compile_u8(v as u8);
                t.b(ctx, &format!("{v} c,"))?.ok();
            }
            7 => {
                let v = src.range(-100_000, 100_000) as f64 / 8.0;
                what = format!("compile_f64 {v}");
                t.a.data_space().align_f64();
                t.a.data_space().compile_f64(v);
                t.b(ctx, &format!("falign {} f,", text(v)))?.ok();
            }
            8 => {
                what = "align".to_string();
                match src.usize(2) {
                    0 => {
                        t.a.data_space().align();
                        t.b(ctx, "align")?.ok();
                    }
                    _ => {
                        t.a.data_space().align_f64();
                        t.b(ctx, "falign")?.ok();
                    }
                }
            }
            9 => {
                let v = src.range(-(used as i64), 100);
                what = format!("allot {v}");
                if src.chance(1, 2) {
                    t.a.data_space().allot(v as isize);
                } else {
                    let to = (t.a.here() as i64 + v) as usize;
                    if src.chance(1, 2) {
                        ensure!(t.a.data_space().set_here(to).is_ok(), "set_here", "set_here fails in the data space");
                    } else {
                        t.a.data_space().truncate(to);
                    }
                }
                t.b(ctx, &format!("{v} allot"))?.ok();
                // The allotted bytes must be the same to be compared.
                if v > 0 {
                    let (ha, hb) = (t.a.here(), t.b.here());
                    t.a.bytes_mut(ha - v as usize, v as usize).fill(0);
                    t.b.bytes_mut(hb - v as usize, v as usize).fill(0);
                }
            }
            10 => {
                let s = word_text(src);
                what = format!("compile_str {s:?}");
                let at = t.a.here();
                let r = t.a.data_space().compile_str(&s);
                ensure!(r == at, "compile_str", "compile_str gives {r}, HERE was {at}");
                let back = unsafe { t.a.data_space_const().get_str(at).to_string() };
                ensure!(back == s, "get_str", "get_str {back:?}, compiled {s:?}");
                let raw = unsafe { t.a.data_space_const().str_from_raw_parts(at + 8, s.len()).to_string() };
                ensure!(raw == s, "str_from_raw_parts", "{raw:?}, compiled {s:?}");
                let line = format!("{} , {}", s.len(), s.bytes().map(|c| format!("{c} c, ")).collect::<String>());
                t.b(ctx, &line)?.ok();
            }
            11 => {
                // Random access
                if used < 16 {
                    continue;
                }
                let o = src.usize(used - 15);
                let v = src.cell();
                let (pa, pb) = (h0.0 + t.floor + o, h0.1 + t.floor + o);
                let line = match src.usize(5) {
                    0 => {
                        unsafe { t.a.data_space().put_u8(v as u8, pa) };
                        format!("{} {pb} c!", v as u8)
                    }
                    1 => {
                        unsafe { t.a.data_space().put_isize(v as isize, pa) };
                        format!("{v} {pb} !")
                    }
                    2 => {
                        unsafe { t.a.data_space().put_usize(v as usize, pa) };
                        format!("{v} {pb} !")
                    }
                    3 => {
                        let f = src.range(-100_000, 100_000) as f64 / 8.0;
                        // F! uses the next aligned address.
                        let (up, pb) = ((8 - pa % 8) % 8, pb.next_multiple_of(8));
                        let pa = pa + up;
                        unsafe { t.a.data_space().put_f64(f, pa) };
                        format!("{} {pb} f!", text(f))
                    }
                    _ => {
                        let s: String = word_text(src).chars().take(2).collect();
                        t.a.data_space().put_cstr(&s, pa);
                        let b: String = s.bytes().enumerate().map(|(i, c)| format!("{c} {} c! ", pb + 1 + i)).collect();
                        format!("{} {pb} c! {b}", s.len())
                    }
                };
                what = format!("store at +{o}: {line}");
                t.b(ctx, &format!("{line}"))?.ok();
            }
            12 => {
                if used < 16 || depth + 2 > 60 || fdepth + 1 > 60 {
                    continue;
                }
                let o = src.usize(used - 15);
                what = format!("fetch at +{o}");
                let (pa, pb) = (h0.0 + t.floor + o, h0.1 + t.floor + o);
                let d = t.a.data_space_const();
                let (c, u, i, f) = unsafe { (d.get_u8(pa), d.get_usize(pa), d.get_isize(pa), d.get_f64(pa.next_multiple_of(8))) };
                ensure!(u as isize == i, "get", "get_usize {u:#x}, get_isize {i:#x}");
                t.a.s_stack().push2(c as isize, i);
                t.a.f_stack().push(f);
                t.b(ctx, &format!("{pb} c@ {pb} @ {pb} f@"))?.ok();
            }
            13 => {
                // Is the address in the data space?
                let (sa, la) = (t.a.start(), t.a.limit());
                let o = *src.pick(&[-9i64, -8, -1, 0, 1, 7, 8, 100]);
                let p = if src.chance(1, 2) { sa as i64 + o } else { la as i64 - o } as usize;
                let l = *src.pick(&[0usize, 1, 7, 8, 9, 100, usize::MAX, usize::MAX / 2, (la - sa), (la - sa) + 1]);
                what = format!("has({}) has_range({l})", p as i64 - sa as i64);
                let d = t.a.data_space_const();
                let (h, r) = (d.has(p), d.has_range(p, l));
                let (p, s, e) = (p as i128, sa as i128, la as i128);
                ensure!(h == (s <= p && p < e), "has", "{what} gives {h}");
                ensure!(r == (s <= p && p + l as i128 <= e), "has_range", "{what} gives {r}");
                ensure!(d.capacity() == la - sa, "capacity", "capacity {} of {}", d.capacity(), la - sa);
            }
            14 | 15 => {
                // A definition
                serial += 1;
                let v = src.cell();
                let f = src.range(-1000, 1000) as f64 / 8.0;
                let e = format!(": w{serial}");
                t.a.eval(&e).ok();
                t.b(ctx, &e)?.ok();
                let mut tx = String::new();
                for _ in 0..src.usize(8) {
                    match src.usize(6) {
                        0 => {
                            t.a.compile_integer(v as isize);
                            tx += &format!("{v} ");
                        }
                        1 => {
                            t.a.compile_float(f);
                            tx += &format!("{} ", text(f));
                        }
                        2 | 3 => {
                            let w = *src.pick(&["swap", "dup", "drop", "+", "depth", "1+", "fdup", "f+", "base", "here", "rot", "=", "exit", "pause", ">r", "r>", "unloop"]);
                            let xt = t.a.find(w);
                            ensure!(xt.is_some(), "find", "{w} is not found");
                            t.a.compile_word(xt.unwrap());
                            tx += &format!("{w} ");
                        }
                        _ => {
                            let w = *src.pick(&["if", "begin", "case"]);
                            match w {
                                "if" => {
                                    t.a.imm_if();
                                    t.a.compile_integer(1);
                                    if src.chance(1, 2) {
                                        t.a.imm_else();
                                        t.a.compile_integer(2);
                                        t.a.imm_then();
                                        tx += "if 1 else 2 then ";
                                    } else {
                                        t.a.imm_then();
                                        tx += "if 1 then ";
                                    }
                                }
                                "begin" => {
                                    t.a.imm_begin();
                                    t.a.compile_integer(-1);
                                    t.a.imm_until();
                                    tx += "begin -1 until ";
                                }
                                _ => {
                                    t.a.imm_case();
                                    t.a.compile_integer(5);
                                    t.a.imm_of();
                                    t.a.compile_integer(6);
                                    t.a.imm_endof();
                                    t.a.imm_endcase();
                                    tx += "case 5 of 6 endof endcase ";
                                }
                            }
                        }
                    }
                }
                what = format!(": w{serial} {tx}");
                t.b(ctx, &tx)?.ok();
                t.same(h0, &what)?;
                t.a.eval(";").ok();
                t.b(ctx, ";")?.ok();
                t.floor = t.a.here() - h0.0;
                if src.chance(1, 3) {
                    t.a.immediate();
                    t.b(ctx, "immediate")?.ok();
                    let x = t.a.wordlist().len() - 1;
                    ensure!(t.a.wordlist()[x].is_immediate() && t.b.wordlist()[x].is_immediate(), "immediate", "the definition is not immediate");
                }
                if src.chance(1, 6) {
                    t.a.compile_only();
                    t.b(ctx, "compile-only")?.ok();
                    let x = t.a.wordlist().len() - 1;
                    ensure!(t.a.wordlist()[x].is_compile_only() && t.b.wordlist()[x].is_compile_only(), "compile-only", "the definition is not compile-only");
                }
            }
            16 => {
                // Use of a definition
                if serial == 0 {
                    continue;
                }
                let w = format!("w{}", 1 + src.usize(serial));
                let xt = t.a.find(&w);
                let only = xt.is_some_and(|x| t.a.wordlist()[x].is_compile_only());
                if only || xt.is_none() || depth + fdepth > 40 {
                    continue;
                }
                // Loose return stack words
                if t.risky(xt.unwrap()) {
                    continue;
                }
                what = format!("execute {w}");
                t.a.execute_word(xt.unwrap());
                t.a.run();
                t.a.check_stacks();
                t.b(ctx, &w)?.ok();
            }
            17 => {
                what = "clear_stacks".to_string();
                t.a.clear_stacks();
                // The text has no word for it but an error.
                t.b(ctx, "nosuchword")?.ok();
                t.b.set_error(None);
                t.b.reset();
            }
            18 => {
                let s = source_text(src);
                what = format!("load_str {s:?}");
                t.a.load_str(&s);
                t.b.set_source(&s);
                t.b.evaluate_input();
                if t.a.err().is_some() && t.b.err().is_some() && src.chance(1, 2) {
                    // The rest of the text that failed is gone.
                    t.same(h0, &what)?;
                    let u = source_text(src);
                    what = format!("{what}, then load_str {u:?}");
                    t.a.set_error(None);
                    t.b.set_error(None);
                    t.a.load_str(&u);
                    t.b.set_source(&u);
                    t.b.evaluate_input();
                }
            }
            19 => {
                let s = source_text(src);
                let i = (0..=s.len()).filter(|&i| s.is_char_boundary(i)).collect::<Vec<_>>();
                let i = *src.pick(&i);
                what = format!("push_source {:?} {:?}", &s[..i], &s[i..]);
                t.a.set_source(&s[..i]);
                t.a.push_source(&s[i..]);
                t.a.evaluate_input();
                t.b.eval(&s).ok();
            }
            20 => {
                // A source which is continued after its end
                if src.chance(1, 3) {
                    // All of it stays in the input buffer.
                    let mut all = String::new();
                    t.a.set_source("");
                    for _ in 0..1 + src.usize(4) {
                        let mut u = String::new();
                        for _ in 0..src.usize(60) {
                            u += *src.pick(&["1 drop ", " noop ", "\n2 drop\t", "  ", "( é) ", "true drop "]);
                        }
                        let n = all.len() + u.len() + " source-idx".len();
                        u += " source-idx ";
                        all += &u;
                        t.a.push_source(&u);
                        t.a.evaluate_input();
                        ensure!(t.a.err().is_none(), "push_source", "error {:?} in {all:?}", t.a.err());
                        let idx = t.a.s_stack().pop();
                        ensure!(idx == n as isize, "push_source", "SOURCE-IDX is {idx} at the end of {all:?}, expected {n}");
                        let b = t.a.input_buffer().clone().unwrap_or_default();
                        ensure!(b == all, "push_source", "the input buffer holds {b:?}, expected {all:?}");
                    }
                    continue;
                }
                let (s, u) = (source_text(src), source_text(src));
                what = format!("{s:?}, then push_source {u:?}");
                t.a.set_source(&s);
                t.a.evaluate_input();
                if t.a.err().is_none() {
                    t.a.push_source(&u);
                    t.a.evaluate_input();
                }
                if t.b(ctx, &s)?.is_ok() {
                    t.b(ctx, &u)?.ok();
                }
            }
            21 => {
                let i = 2 + src.usize(4);
                let on = src.chance(1, 2);
                what = format!("set_awake {} {on}", i - 1);
                t.a.set_awake(i - 1, on);
                t.b(ctx, &format!("{i} {}", if on { "resume" } else { "suspend" }))?.ok();
                ensure!(t.b.awake(i - 1) == on, "awake", "awake({}) after {what}", i - 1);
                ensure!(!t.a.awake(NUM_TASKS) && t.a.current_task() == 0, "task", "tasks");
            }
            22 => {
                let s: String = word_text(src).chars().filter(|c| c.is_ascii()).collect();
                what = format!("print {s:?}");
                if let Some(b) = t.a.output_buffer().as_mut() {
                    b.push_str(&s);
                }
                let line: String = s.chars().map(|c| format!("{} emit ", c as u32)).collect();
                t.b(ctx, &format!("{line}"))?.ok();
            }
            23 => {
                let (e, code, txt) = *src.pick(EXCEPTIONS);
                what = format!("abort_with {code}");
                t.a.abort_with(e);
                ensure!(t.a.last_error() == Some(e) && t.a.err() == Some(code), "last_error", "{:?} after abort_with {code}", t.a.last_error());
                ensure!(exception::description(e) == txt, "description", "{code} is described as {:?}", exception::description(e));
                ensure!(t.a.stack().is_empty() && t.a.fstack().is_empty() && t.a.cdepth() == 0, "abort", "stacks after abort_with");
                // Words tell it.
                t.a.s_stack().reset();
                Core::error(&mut t.a);
                ensure!(t.a.s_stack().pop() as i64 == code, "error", "ERROR does not give {code}");
                let n = t.a.output_buffer().as_ref().map_or(0, |b| b.len());
                t.a.dot_error();
                let shown = t.a.output_buffer().as_ref().unwrap()[n..].to_string();
                ensure!(shown == txt, ".error", ".ERROR prints {shown:?} for {code}");
                t.a.output_buffer().as_mut().unwrap().truncate(n);
                t.a.clear_error();
                ensure!(t.a.last_error().is_none(), "0error", "the error is still there");
                t.a.reset();
                t.b(ctx, "nosuchword")?.ok();
                t.b.set_error(None);
                t.b.reset();
            }
            24 => {
                let on = src.chance(1, 2);
                what = format!("compiling {on}");
                if on {
                    t.a.right_bracket();
                    t.b(ctx, "]")?.ok();
                } else {
                    t.a.left_bracket();
                    t.b(ctx, "[")?.ok();
                }
                t.same(h0, &what)?;
                t.a.left_bracket();
                t.b.left_bracket();
            }
            25 => {
                // Names and their cells
                {
                    let here = t.a.here();
                    let l = t.a.wordlist();
                    let i = src.usize(4).min(l.len() - 1);
                    let nfa = l[i].nfa();
                    let at = nfa + src.usize(l[i + 1].nfa() - nfa);
                    ensure!(l.find_xt(at) == Some(i), "find_xt", "find_xt of word {i} gives {:?}", l.find_xt(at));
                    let last = l.len() - 1;
                    let got = l.find_xt(here - 1);
                    ensure!(got == Some(last), "find_xt", "find_xt before HERE gives {got:?}, not {last}");
                }
                let w = *src.pick(&["dup", "DUP", "f+", "nosuch", "", "begin", "w1", "W1", "w2", "if", "*", "Emit", "(abort)", "base", "decimal"]);
                what = format!("find {w:?}");
                let xt = t.a.find(w);
                if !w.is_empty() {
                    let r = t.b(ctx, &format!("' {w}"))?;
                    ensure!(r.is_ok() == xt.is_some(), "find", "find({w:?}) gives {xt:?}, ' gives {r:?}");
                    match xt {
                        Some(x) => t.a.s_stack().push(x as isize),
                        None => {
                            t.b.host_reset();
                            t.a.host_reset();
                        }
                    }
                }
                if let Some(x) = xt {
                    if w != "" {
                        let nfa = t.a.wordlist()[x].nfa();
                        let name = unsafe { t.a.data_space_const().get_str(nfa).to_string() };
                        ensure!(name.eq_ignore_ascii_case(w), "name", "the name of {w} is {name:?}");
                        let dfa = t.a.wordlist()[x].dfa();
                        ensure!(dfa % 8 == 0 && dfa >= nfa + 8 + w.len(), "dfa", "{w}: name at {nfa}, data at {dfa}");
                        let inside = nfa + src.usize(8 + w.len());
                        ensure!(t.a.wordlist().find_xt(inside) == Some(x), "find_xt", "find_xt in the name of {w} (word {x}) gives {:?}", t.a.wordlist().find_xt(inside));
                        ensure!(t.a.wordlist().find_xt(nfa - 1) == x.checked_sub(1), "find_xt", "find_xt before the name of {w} (word {x}) gives {:?}", t.a.wordlist().find_xt(nfa - 1));
                    }
                }
            }
            26 => {
                // Beyond the last word
                let len = t.a.wordlist().len();
                let x = match src.usize(3) {
                    0 => *src.pick(&[usize::MAX, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX - 1, 1 << 32, 0xFFFF_FFFF]),
                    1 => len.max(src.u64() as usize),
                    _ => len + src.usize(3),
                };
                what = format!("execute_word {x}");
                t.a.execute_word(x);
                ensure!(t.a.err() == Some(-21), "execute_word", "execute_word beyond the last word: {:?}", t.a.err());
                t.b(ctx, &format!("{} execute", x as isize))?.ok();
            }
            27 => {
                what = "step by step".to_string();
                // A word run by single steps
                let Some(xt) = (1..=serial).rev().find_map(|i| t.a.find(&format!("w{i}")).map(|x| (i, x))) else { continue };
                if t.risky(xt.1) || t.a.wordlist()[xt.1].is_compile_only() || depth + fdepth > 40 {
                    continue;
                }
                t.a.execute_word(xt.1);
                let mut steps = 0;
                while t.a.forth() {
                    steps += 1;
                    ensure!(steps < 10_000, "steps", "w{} does not end", xt.0);
                }
                t.a.check_stacks();
                t.b(ctx, &format!("w{}", xt.0))?.ok();
            }
            28 => {
                let v = *src.pick(&[2i64, 8, 10, 16]);
                what = format!("base {v}");
                let at = t.a.data_space_const().system_variables().base_addr();
                unsafe { t.a.data_space().put_isize(v as isize, at) };
                t.b(ctx, &format!("{v} base !"))?.ok();
            }
            _ => {
                let c = src.usize(3);
                what = format!("primitive {c} by method");
                if depth < 2 {
                    continue;
                }
                match c {
                    0 => {
                        t.a.swap();
                        t.b(ctx, "swap")?.ok();
                    }
                    1 => {
                        t.a.nip();
                        t.b(ctx, "nip")?.ok();
                    }
                    _ => {
                        t.a.two_dup();
                        t.b(ctx, "2dup")?.ok();
                    }
                }
                t.a.check_stacks();
            }
        }
        note!(ctx, "{what}");
        kinds |= 1 << k;
        t.done += 1;
        t.same(h0, &what)?;
        if t.a.err().is_some() {
            t.a.host_reset();
            t.b.host_reset();
            t.same(h0, "reset")?;
        }
    }
    if t.done >= 8 && kinds.count_ones() >= 5 {
        ctx.nontrivial();
    }
    Ok(())
}

impl Two {
    /// Does the body use words which spoil the return stack or give addresses?
    fn risky(&mut self, xt: usize) -> bool {
        let from = self.a.wordlist()[xt].dfa();
        let to = if xt + 1 < self.a.wordlist().len() { self.a.wordlist()[xt + 1].nfa() } else { self.a.here() };
        let bad: Vec<usize> = [">r", "r>", "unloop", "base", "here", "pause"].iter().map(|w| self.a.find(w).unwrap()).collect();
        let mut p = from;
        while p + 8 <= to {
            if bad.contains(&(self.a.cell(p) as usize)) {
                return true;
            }
            p += 8;
        }
        false
    }
}

fn word_text(src: &mut Src) -> String {
    let n = src.usize(12);
    (0..n).map(|_| *src.pick(&['a', 'B', '1', ' ', '"', 'é', '星', '😀', '~'])).collect()
}

fn source_text(src: &mut Src) -> String {
    let n = src.usize(8);
    let mut s = String::new();
    for _ in 0..n {
        s += *src.pick(&["1", "22", "333", "dup", "+", "swap", "1.5e", "f+", "nosuch", "( a é )", "drop", "depth", "\\ x\n", "emit", "65"]);
        s += *src.pick(&[" ", " ", "  ", "\n", "\t"]);
    }
    s
}

// ---------------------------------------------------------------- words of the host

#[derive(Clone, Debug)]
enum Item {
    Lit(i64),
    Call(usize),
}

#[derive(Clone, Debug)]
enum Def {
    /// Word of the host number k
    Host(usize),
    Colon(Vec<Item>),
    /// Named word which exists from the start, with its effect
    Old(fn(&mut Vec<i64>)),
    Marker,
}

#[derive(Clone, Debug)]
struct Entry {
    name: &'static str,
    xt: usize,
    imm: bool,
    only: bool,
    def: Def,
}

fn h77(vm: &mut Vm) {
    vm.s_stack().push(77)
}
fn h1000(vm: &mut Vm) {
    let n = vm.s_stack().pop();
    vm.s_stack().push(n.wrapping_add(1000))
}
fn hraise(vm: &mut Vm) {
    let n = vm.s_stack().pop();
    let e = EXCEPTIONS[n.rem_euclid(EXCEPTIONS.len() as isize) as usize].0;
    vm.abort_with(e)
}
fn hprint(vm: &mut Vm) {
    let n = vm.s_stack().pop();
    if let Some(b) = vm.output_buffer().as_mut() {
        b.push_str(&format!("<{n}>"));
    }
}
fn hlit(vm: &mut Vm) {
    let n = vm.s_stack().pop();
    vm.compile_integer(n)
}
fn hplus(vm: &mut Vm) {
    let xt = vm.find("1+").expect("1+");
    vm.execute_word(xt)
}
fn htwo(vm: &mut Vm) {
    let (a, b) = vm.s_stack().pop2();
    vm.s_stack().push3(b, a, a.wrapping_sub(b))
}
const HOST: &[fn(&mut Vm)] = &[h77, h1000, hraise, hprint, hlit, hplus, htwo];
const NAMES: &[&str] = &["f", "G", "Hk", "xaa", "XB@", "é", "星x", "nip", "5", "1e", "host-word-with-a-long-name-0123456789", "f?", "-"];

struct World {
    defs: Vec<Entry>,
    stack: Vec<i64>,
    out: String,
    err: Option<i64>,
    /// The definition being compiled
    body: Option<Vec<Item>>,
}

impl World {
    fn find(&self, name: &str) -> Option<usize> {
        self.defs.iter().rposition(|e| e.name.eq_ignore_ascii_case(name))
    }
    fn raise(&mut self, code: i64) {
        self.err = Some(code);
        self.stack.clear();
    }
    fn run(&mut self, i: usize) {
        if self.err.is_some() {
            return;
        }
        match self.defs[i].def.clone() {
            Def::Host(k) => {
                let s = &mut self.stack;
                match k {
                    0 => s.push(77),
                    1 => {
                        let n = s.pop().unwrap();
                        s.push(n.wrapping_add(1000));
                    }
                    2 => {
                        let n = s.pop().unwrap();
                        let c = EXCEPTIONS[n.rem_euclid(EXCEPTIONS.len() as i64) as usize].1;
                        self.raise(c);
                    }
                    3 => {
                        let n = s.pop().unwrap();
                        self.out += &format!("<{n}>");
                    }
                    4 => {
                        let n = s.pop().unwrap();
                        if let Some(b) = self.body.as_mut() {
                            b.push(Item::Lit(n));
                        }
                    }
                    5 => {
                        let n = s.pop().unwrap();
                        s.push(n.wrapping_add(1));
                    }
                    _ => {
                        let b = s.pop().unwrap();
                        let a = s.pop().unwrap();
                        s.push(b);
                        s.push(a);
                        s.push(a.wrapping_sub(b));
                    }
                }
            }
            Def::Colon(b) => {
                for it in b {
                    match it {
                        Item::Lit(v) => self.stack.push(v),
                        Item::Call(j) => self.run(j),
                    }
                    if self.err.is_some() {
                        return;
                    }
                }
            }
            Def::Old(f) => f(&mut self.stack),
            Def::Marker => {}
        }
    }
    /// Items needed, net effect, most items above the start at any time
    fn need3(&self, i: usize) -> (i64, i64, i64) {
        match &self.defs[i].def {
            Def::Host(k) => [(0, 1, 1), (1, 0, 0), (1, -1, 0), (1, -1, 0), (1, -1, 2), (1, 0, 1), (2, 1, 1)][*k],
            Def::Colon(b) => {
                let (mut need, mut net, mut peak) = (0i64, 0i64, 0i64);
                for it in b {
                    let (n, e, p) = match it {
                        Item::Lit(_) => (0, 1, 1),
                        Item::Call(j) => self.need3(*j),
                    };
                    need = need.max(n - net);
                    peak = peak.max(net + p);
                    net += e;
                }
                (need, net, peak)
            }
            Def::Old(_) => (2, -1, 0),
            Def::Marker => (0, 0, 1),
        }
    }
    fn need(&self, i: usize) -> (i64, i64) {
        let (n, e, _) = self.need3(i);
        (n, e)
    }
    fn fits(&self, i: usize) -> bool {
        self.stack.len() as i64 + self.need3(i).2 <= 60
    }
    fn compiles(&self, i: usize) -> bool {
        match &self.defs[i].def {
            Def::Host(k) => *k == 4,
            Def::Colon(b) => b.iter().any(|it| matches!(it, Item::Call(j) if self.compiles(*j))),
            Def::Marker => self.defs[i].name == "zz",
            _ => false,
        }
    }
}

fn words(src: &mut Src, ctx: &mut Ctx) -> R {
    let vm = &mut Vm::new();
    let mut w = World { defs: vec![], stack: vec![], out: String::new(), err: None, body: None };
    let nip = vm.find("nip").expect("nip");
    w.defs.push(Entry {
        name: "nip",
        xt: nip,
        imm: false,
        only: false,
        def: Def::Old(|s| {
            let t = s.pop().unwrap();
            s.pop();
            s.push(t);
        }),
    });
    w.defs.push(Entry {
        name: "-",
        xt: vm.find("-").expect("-"),
        imm: false,
        only: false,
        def: Def::Old(|s| {
            let t = s.pop().unwrap();
            let u = s.pop().unwrap();
            s.push(u.wrapping_sub(t));
        }),
    });
    let n = 4 + src.usize(28);
    let (mut made, mut used) = (0, 0);
    for _ in 0..n {
        let len0 = vm.wordlist().len();
        let name = *src.pick(NAMES);
        match src.weighted(&[6, 4, 2, 9, 3, 1, 2]) {
            0 => {
                // A word of the host
                let k = src.usize(HOST.len());
                let flags = src.usize(4);
                note!(ctx, "host {name} {k} flags {flags}");
                match flags {
                    0 => vm.add_primitive(name, HOST[k]),
                    1 => vm.add_immediate(name, HOST[k]),
                    2 => vm.add_compile_only(name, HOST[k]),
                    _ => vm.add_immediate_and_compile_only(name, HOST[k]),
                }
                ensure!(vm.wordlist().len() == len0 + 1, "len", "{} words after {len0} and one more", vm.wordlist().len());
                w.defs.push(Entry { name, xt: len0, imm: flags & 1 == 1, only: flags & 2 == 2, def: Def::Host(k) });
                made += 1;
            }
            1 | 2 => {
                // A definition, by text or by methods
                let by_text = src.chance(1, 2);
                let mut line = format!(": {name} ");
                if w.find(name).is_some() {
                    w.out += &format!("Redefining {name}");
                }
                vm.set_source(&format!(": {name}"));
                if !by_text {
                    vm.evaluate_input();
                }
                w.body = Some(vec![]);
                for _ in 0..src.usize(6) {
                    if w.err.is_some() {
                        break;
                    }
                    if src.chance(1, 2) {
                        let v = src.range(-9, 99);
                        line += &format!("{v} ");
                        // A number may be the name of a word.
                        match w.find(&v.to_string()) {
                            Some(_) => {
                                let l = line.trim_end().rfind(' ').unwrap();
                                line.truncate(l + 1);
                                continue;
                            }
                            None => {
                                if !by_text {
                                    vm.compile_integer(v as isize);
                                }
                                w.body.as_mut().unwrap().push(Item::Lit(v));
                            }
                        }
                    } else {
                        let c = src.usize(w.defs.len());
                        // Only what the name means now
                        let Some(i) = w.find(w.defs[c].name) else { continue };
                        if matches!(w.defs[i].def, Def::Marker) {
                            continue;
                        }
                        let e = w.defs[i].clone();
                        // Recursion cannot be: the new name is hidden.
                        let depth_ok = w.need(i).0 <= 2 && w.defs[i..].len() < 1000;
                        if !depth_ok || size(&w, i) > 60 || w.need(i).1.abs() > 8 {
                            continue;
                        }
                        if e.imm {
                            // Executed now; needs its items.
                            let (need, _) = w.need(i);
                            if (w.stack.len() as i64) < need || !by_text || !w.fits(i) {
                                continue;
                            }
                            line += &format!("{} ", e.name);
                            w.run(i);
                        } else {
                            line += &format!("{} ", e.name);
                            if !by_text {
                                vm.compile_word(e.xt);
                            }
                            w.body.as_mut().unwrap().push(Item::Call(i));
                        }
                    }
                }
                line.push(';');
                note!(ctx, "{line}");
                if by_text {
                    vm.eval(&line).ok();
                } else {
                    vm.eval(";").ok();
                }
                let body = w.body.take().unwrap();
                let want = w.err;
                ensure!(vm.err() == want, "error", "{line}: {:?}, expected {want:?}", vm.err());
                ensure!(vm.wordlist().len() == len0 + 1, "len", "{} words after {len0} and one more", vm.wordlist().len());
                if w.err.is_none() {
                    let (mut imm, mut only) = (false, false);
                    if src.chance(1, 4) {
                        vm.immediate();
                        imm = true;
                    }
                    if src.chance(1, 8) {
                        vm.compile_only();
                        only = true;
                    }
                    w.defs.push(Entry { name, xt: len0, imm, only, def: Def::Colon(body) });
                    made += 1;
                }
            }
            3 => {
                // Interpreted
                let c = src.usize(w.defs.len());
                let Some(i) = w.find(w.defs[c].name) else { continue };
                let e = w.defs[i].clone();
                if w.compiles(i) {
                    continue;
                }
                let (need, net) = w.need(i);
                let mut line = String::new();
                if !w.fits(i) || net < -3 {
                    continue;
                }
                while (w.stack.len() as i64) < need {
                    let v = 10 + src.range(0, 70);
                    line += &format!("{v} ");
                    w.stack.push(v);
                }
                let way = src.usize(4);
                line += &match way {
                    0 => format!("' {} execute", e.name),
                    1 => e.name.to_uppercase_ascii(),
                    _ => e.name.to_string(),
                };
                if way == 0 && e.only {
                    vm.eval(line.split('\'').next().unwrap()).ok();
                    continue;
                }
                note!(ctx, "{line}");
                vm.eval(&line).ok();
                if e.only {
                    w.raise(-14);
                } else {
                    w.run(i);
                    unmark(&mut w, i);
                }
                used += 1;
            }
            4 => {
                // By find, execute_word and run
                let c = src.usize(w.defs.len());
                let Some(i) = w.find(w.defs[c].name) else { continue };
                if w.compiles(i) {
                    continue;
                }
                let (need, _) = w.need(i);
                if !w.fits(i) {
                    continue;
                }
                while (w.stack.len() as i64) < need {
                    let v = src.cell();
                    vm.s_stack().push(v as isize);
                    w.stack.push(v);
                }
                note!(ctx, "run {}", w.defs[i].name);
                let xt = vm.find(w.defs[c].name);
                ensure!(xt == Some(w.defs[i].xt), "find", "find({:?}) gives {xt:?}, expected {}", w.defs[c].name, w.defs[i].xt);
                vm.execute_word(xt.unwrap());
                vm.run();
                vm.check_stacks();
                w.run(i);
                unmark(&mut w, i);
                used += 1;
            }
            5 => {
                // A marker takes later words of the host with it.
                let name = *src.pick(&["mk", "Mk2"]);
                note!(ctx, "marker {name}");
                vm.eval(&format!("marker {name}")).ok();
                if w.find(name).is_some() {
                    w.out += &format!("Redefining {name}");
                }
                w.defs.push(Entry { name, xt: len0, imm: false, only: false, def: Def::Marker });
            }
            _ => {
                // POSTPONE of a word into an immediate one
                let c = src.usize(w.defs.len());
                let Some(i) = w.find(w.defs[c].name) else { continue };
                if matches!(w.defs[i].def, Def::Marker) || w.find("zz").is_some() || w.find("yy").is_some() || w.need(i).0 > 2 {
                    continue;
                }
                let e = w.defs[i].clone();
                if e.imm || w.compiles(i) || !w.fits(i) {
                    continue;
                }
                note!(ctx, "postpone {}", e.name);
                vm.eval(&format!(": zz postpone {} ; immediate : yy zz ;", e.name)).ok();
                ensure!(vm.err().is_none(), "postpone", "postpone {}: {:?}", e.name, vm.err());
                while (w.stack.len() as i64) < w.need(i).0 {
                    vm.s_stack().push(5);
                    w.stack.push(5);
                }
                vm.eval("yy").ok();
                w.run(i);
                w.defs.push(Entry { name: "zz", xt: len0, imm: true, only: false, def: Def::Marker });
                w.defs.push(Entry { name: "yy", xt: len0 + 1, imm: false, only: false, def: Def::Colon(vec![Item::Call(i)]) });
            }
        }
        ensure!(vm.err() == w.err, "error", "error {:?}, expected {:?}", vm.err(), w.err);
        ensure!(vm.stack() == w.stack, "stack", "stack {:?}, expected {:?}", vm.stack(), w.stack);
        let o = vm.take_output();
        ensure!(o.eq_ignore_ascii_case(&w.out), "output", "printed {o:?}, expected {:?}", w.out);
        w.out.clear();
        if w.err.take().is_some() {
            ctx.label("exception");
            vm.host_reset();
        }
        w.body = None;
        for name in NAMES {
            let want = w.find(name).map(|i| w.defs[i].xt);
            let got = vm.find(name);
            ensure!(got == want, "find", "find({name:?}) gives {got:?}, expected {want:?}");
            if let Some(i) = w.find(name) {
                let e = &w.defs[i];
                let d = &vm.wordlist()[e.xt];
                ensure!(d.is_immediate() == e.imm && d.is_compile_only() == e.only && !d.is_hidden(), "flags", "{name}: immediate {}, compile-only {}, hidden {}", d.is_immediate(), d.is_compile_only(), d.is_hidden());
            }
        }
        if w.stack.len() > 40 {
            vm.clear_stacks();
            w.stack.clear();
        }
    }
    if made >= 4 && used >= 3 {
        ctx.nontrivial();
    }
    Ok(())
}

fn size(w: &World, i: usize) -> usize {
    match &w.defs[i].def {
        Def::Colon(b) => b.iter().map(|it| if let Item::Call(j) = it { size(w, *j) } else { 1 }).sum::<usize>() + 1,
        _ => 1,
    }
}

/// Running a marker forgets it and what is newer.
fn unmark(w: &mut World, i: usize) {
    if w.err.is_none() && matches!(w.defs[i].def, Def::Marker) && w.defs[i].name != "zz" {
        w.defs.truncate(i);
    }
}

trait UpperAscii {
    fn to_uppercase_ascii(&self) -> String;
}
impl UpperAscii for str {
    fn to_uppercase_ascii(&self) -> String {
        self.chars().map(|c| c.to_ascii_uppercase()).collect()
    }
}

// ---------------------------------------------------------------- several machines

#[derive(PartialEq, Debug, Clone)]
struct Seen {
    error: Option<i64>,
    stack: Vec<isize>,
    floats: Vec<u64>,
    printed: String,
}

fn line_in<V: Core>(vm: &mut V, line: &str) -> Seen {
    vm.set_source(line);
    vm.evaluate_input();
    let error = vm.last_error().map(|e| isize::from(e) as i64);
    // Addresses are told as distances from the variable `buf`.
    let (lo, hi) = (vm.data_space_const().start() as isize, vm.data_space_const().limit() as isize);
    let buf = match vm.find("buf") {
        Some(x) => vm.wordlist()[x].dfa() as isize,
        None => 0,
    };
    let stack = vm.s_stack().as_slice().iter().map(|&v| if lo <= v && v < hi { v - buf } else { v }).collect();
    let floats = vm.f_stack().as_slice().iter().map(|f| if f.is_nan() { f64::NAN.to_bits() } else { f.to_bits() }).collect();
    if error.is_some() {
        vm.clear_stacks();
        vm.reset();
    }
    let printed = vm.output_buffer().as_mut().map(std::mem::take).unwrap_or_else(|| "none".into());
    Seen { error, stack, floats, printed }
}

fn prepared<V: Core>(vm: &mut V) -> R {
    let bye = vm.find("bye").expect("bye");
    vm.set_handler(bye);
    for l in crate::props::c14::preparation() {
        let s = line_in(vm, l);
        ensure!(s.error.is_none(), "preparation", "{l}: {:?}", s.error);
    }
    Ok(())
}

enum Machine {
    Own(Vm),
    Crate(rtforth::mock_vm::VM),
}

/// Machines in one process know nothing of each other, and it does not matter which host they belong to.
fn hosts(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = 2 + src.usize(2);
    let programs: Vec<Vec<String>> = (0..n).map(|i| crate::props::c14::lines_of(src, i)).collect();
    let mut want: Vec<Vec<Seen>> = vec![];
    for (i, p) in programs.iter().enumerate() {
        note!(ctx, "machine {i}: {p:?}");
        let mut vm = Vm::new();
        prepared(&mut vm)?;
        // Up to the first exception
        let mut w = vec![];
        for l in p {
            w.push(line_in(&mut vm, l));
            if w.last().unwrap().error.is_some() {
                break;
            }
        }
        want.push(w);
    }
    let mut m: Vec<Machine> = vec![];
    for _ in 0..n {
        m.push(if src.chance(1, 2) {
            let mut v = Vm::new();
            prepared(&mut v)?;
            Machine::Own(v)
        } else {
            let mut v = rtforth::mock_vm::VM::new();
            prepared(&mut v)?;
            Machine::Crate(v)
        });
    }
    let mut at = vec![0; n];
    let mut order = String::new();
    let mut switches = 0;
    let mut last = n;
    loop {
        let left: Vec<usize> = (0..n).filter(|&i| at[i] < want[i].len()).collect();
        if left.is_empty() {
            break;
        }
        let i = *src.pick(&left);
        switches += (i != last) as usize;
        last = i;
        let l = &programs[i][at[i]];
        let got = match &mut m[i] {
            Machine::Own(v) => line_in(v, l),
            Machine::Crate(v) => line_in(v, l),
        };
        order += &format!("{i}");
        ensure!(got == want[i][at[i]], "differs", "machine {i} ({}), line {} {l:?} after the order {order}: {got:?}, alone {:?}", if matches!(m[i], Machine::Own(_)) { "own host" } else { "mock_vm" }, at[i], want[i][at[i]]);
        at[i] += 1;
    }
    if switches >= 6 {
        ctx.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- DataSpace

fn raw(src: &mut Src, ctx: &mut Ctx) -> R {
    let pages = 1 + src.usize(3);
    let by_pages = src.chance(1, 3);
    let cap = if by_pages || src.chance(1, 2) { pages * 4096 } else { pages * 4096 - src.usize(2000) };
    let mut d = if by_pages { DataSpace::new(pages) } else { DataSpace::with_capacity(cap) };
    let start = d.start();
    ensure!(d.limit() == start + cap && d.capacity() == cap && start % 4096 == 0, "size", "{cap} bytes from {start:#x} to {:#x}, capacity {}", d.limit(), d.capacity());
    let first = d.here() - start;
    ensure!(first >= 16 && first < 4096, "here", "HERE of a new data space is {first}");
    ensure!(unsafe { d.get_isize(d.system_variables().base_addr()) } == 10, "base", "BASE is not ten");
    let zero = unsafe { d.buffer_from_raw_parts(start + first, cap - first) }.iter().all(|&b| b == 0);
    ensure!(zero, "zero", "a new data space is not zero");
    let mut m = vec![0u8; cap];
    m[..first].copy_from_slice(unsafe { d.buffer_from_raw_parts(start, first) });
    let mut here = first;
    let n = 4 + src.usize(40);
    let near_end = src.chance(1, 3);
    if near_end {
        here = cap - src.usize(60);
        ensure!(d.set_here(start + here).is_ok(), "set_here", "set_here {here} of {cap}");
    }
    let mut kinds = 0u32;
    for _ in 0..n {
        let k = src.usize(13);
        let room = cap - here;
        match k {
            0 if room >= 1 => {
                let v = src.u64() as u8;
                d.compile_u8(v);
                m[here] = v;
                here += 1;
            }
            1 | 2 if room >= 8 => {
                let v = src.cell();
                if k == 1 {
                    d.compile_isize(v as isize)
                } else {
                    d.compile_usize(v as usize)
                }
                m[here..here + 8].copy_from_slice(&v.to_le_bytes());
                here += 8;
            }
            3 if room >= 8 => {
                let v = src.float();
                d.compile_f64(v);
                m[here..here + 8].copy_from_slice(&v.to_le_bytes());
                here += 8;
            }
            4 => {
                let s = word_text(src);
                if room < s.len() + 8 {
                    continue;
                }
                let at = d.compile_str(&s);
                ensure!(at == start + here, "compile_str", "compile_str gives {at}, expected {}", start + here);
                m[here..here + 8].copy_from_slice(&s.len().to_le_bytes());
                m[here + 8..here + 8 + s.len()].copy_from_slice(s.as_bytes());
                here += 8 + s.len();
                let b = unsafe { d.get_str(at) };
                ensure!(b == s, "get_str", "{b:?}, compiled {s:?}");
            }
            5 => {
                let mut s = word_text(src);
                if src.chance(1, 20) {
                    s = s.repeat(60);
                }
                let l = s.len().min(255);
                if cap < l + 8 {
                    continue;
                }
                let p = place(src, first, cap - l - 8);
                d.put_cstr(&s, start + p);
                m[p] = l as u8;
                m[p + 1..p + 1 + l].copy_from_slice(&s.as_bytes()[..l]);
            }
            6 => {
                let a = *src.pick(&[8usize, 8, 16]);
                let to = here.div_ceil(a) * a;
                if a == 16 {
                    d.align_16bytes();
                } else if src.chance(1, 2) {
                    d.align();
                } else {
                    d.align_f64();
                }
                if to <= cap {
                    here = to;
                }
                let x = src.cell() as u64 as usize;
                if x < usize::MAX - 16 {
                    ensure!(DataSpace::aligned(x) == x.div_ceil(8) * 8 && DataSpace::aligned_f64(x) == x.div_ceil(8) * 8 && DataSpace::aligned_16bytes(x) == x.div_ceil(16) * 16, "aligned", "aligned({x:#x})");
                }
            }
            7 => {
                // Refused beyond the ends
                let v = match src.usize(4) {
                    0 => src.range(-(here as i64 - first as i64), room as i64),
                    1 => src.range(-40, 40),
                    2 => *src.pick(&[room as i64, room as i64 + 1, -(here as i64), -(here as i64) - 1, 1 << 40, -(1 << 40)]),
                    _ => src.range(0, 8),
                };
                let to = here as i64 + v;
                // The system variables are left alone.
                if to >= 0 && to < first as i64 {
                    continue;
                }
                let ok = to >= 0 && to <= cap as i64;
                match src.usize(3) {
                    0 => d.allot(v as isize),
                    1 => d.truncate((start as i64 + to) as usize),
                    _ => {
                        let r = d.set_here((start as i64 + to) as usize);
                        ensure!(r.is_ok() == ok, "set_here", "set_here({to}) of {cap}: {r:?}");
                        ensure!(ok || r == Err(exception::INVALID_MEMORY_ADDRESS), "set_here", "set_here({to}): {r:?}");
                    }
                }
                if ok {
                    here = to as usize;
                }
            }
            8 => {
                let p = place(src, first, cap - 8);
                let v = src.cell();
                unsafe {
                    match src.usize(4) {
                        0 => {
                            d.put_u8(v as u8, start + p);
                            m[p] = v as u8;
                        }
                        1 => {
                            d.put_isize(v as isize, start + p);
                            m[p..p + 8].copy_from_slice(&v.to_le_bytes());
                        }
                        2 => {
                            d.put_usize(v as usize, start + p);
                            m[p..p + 8].copy_from_slice(&v.to_le_bytes());
                        }
                        _ => {
                            let f = src.float();
                            d.put_f64(f, start + p);
                            m[p..p + 8].copy_from_slice(&f.to_le_bytes());
                        }
                    }
                }
            }
            9 => {
                let p = place(src, first, cap - 8);
                let b: [u8; 8] = m[p..p + 8].try_into().unwrap();
                let (c, u, i, f) = unsafe { (d.get_u8(start + p), d.get_usize(start + p), d.get_isize(start + p), d.get_f64(start + p)) };
                ensure!(c == b[0] && u == usize::from_le_bytes(b) && i == isize::from_le_bytes(b) && f.to_bits() == u64::from_le_bytes(b), "get", "at {p}: {c} {u} {i} {f}, bytes {b:?}");
            }
            10 => {
                let p = place(src, first, cap);
                let l = src.usize(cap - p + 1).min(40);
                let v = src.u64() as u8;
                unsafe { d.buffer_from_raw_parts_mut(start + p, l) }.fill(v);
                m[p..p + l].fill(v);
            }
            11 => {
                let o = *src.pick(&[0i64, -1, 1, -8, 8, 100, -100]);
                let p = (*src.pick(&[start, start + cap, start + here, 0, usize::MAX - 200]) as i64).wrapping_add(o) as usize;
                let l = *src.pick(&[0usize, 1, 8, 9, cap, cap - 1, cap + 1, usize::MAX, usize::MAX - start, usize::MAX - p]);
                let (q, s, e) = (p as i128, start as i128, (start + cap) as i128);
                ensure!(d.has(p) == (s <= q && q < e), "has", "has({p:#x}) in {start:#x} + {cap:#x}");
                ensure!(d.has_range(p, l) == (s <= q && q + l as i128 <= e), "has_range", "has_range({p:#x}, {l:#x}) in {start:#x} + {cap:#x}");
            }
            12 if room >= 8 => {
                // A distance from the cell after it
                let f = src.cell() as usize;
                let there = d.here() + 8;
                d.compile_relative(f);
                m[here..here + 8].copy_from_slice(&f.wrapping_sub(there).to_le_bytes());
                here += 8;
            }
            _ => continue,
        }
        kinds |= 1 << k;
        ensure!(d.here() == start + here, "here", "after operation {k}: HERE {}, expected {here}", d.here() as i64 - start as i64);
        let b = unsafe { d.buffer_from_raw_parts(start, cap) };
        if b != &m[..] {
            let i = (0..cap).find(|&i| b[i] != m[i]).unwrap();
            return fail("bytes", format!("after operation {k}: byte {i} is {}, expected {}", b[i], m[i]));
        }
        note!(ctx, "op {k} here {here}");
    }
    if kinds.count_ones() >= 5 {
        ctx.nontrivial();
    }
    if near_end {
        ctx.label("near the end");
    }
    Ok(())
}

fn place(src: &mut Src, first: usize, last: usize) -> usize {
    match src.usize(3) {
        0 => first + src.usize(40),
        1 => last - src.usize(40),
        _ => first + src.usize(last - first + 1),
    }
}
