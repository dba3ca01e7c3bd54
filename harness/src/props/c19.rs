//! C19: inspection and timing words.
use crate::engine::*;
use crate::model::*;
use crate::vm::Vm;
use rtforth::core::Core;
use rtforth::tools::Tools;
use std::cell::RefCell;

pub fn property() -> Property {
    Property {
        id: "C19",
        rule: "Stacks of any depth and content, histories of definitions, redefinitions, failed definitions and markers, ranges of memory with any bytes, source lines (typed and loaded), chains of definitions ending in an error, clocks starting at any time and advancing by any amount at each reading, and sequences of measured executions are drawn; the text printed by .S WORDS .WORD DUMP .INPUT .TOKEN .ERROR .BACKTRACE .XTIME and the values of DEPTH SOURCE-ID MTIME UTIME are compared with a model of them, and stacks, BASE, HERE and memory with what they were. MS is run in one task while others count their turns. Non-trivial: a stack of 3 or more items, 2 or more definitions, 2 or more lines dumped, 3 measurements, one or more pauses of MS.",
        families: vec![
            Family { name: "stacks", quick: 200_000, thorough: 2_000_000, run: stacks },
            Family { name: "words", quick: 50_000, thorough: 400_000, run: words },
            Family { name: "dump", quick: 100_000, thorough: 1_000_000, run: dump },
            Family { name: "source", quick: 60_000, thorough: 500_000, run: source },
            Family { name: "backtrace", quick: 40_000, thorough: 300_000, run: backtrace },
            Family { name: "clock", quick: 60_000, thorough: 500_000, run: clock },
            Family { name: "ms", quick: 40_000, thorough: 400_000, run: ms },
            Family { name: "xtime", quick: 80_000, thorough: 800_000, run: xtime },
        ],
        probes: vec![],
        assumptions: vec!["DUMP prints whole lines of 8 bytes", "the clock does not go backwards and stays below 2^63 ns"],
    }
}

/// Is this what .S prints? The text expected is returned otherwise.
fn is_stack_text(out: &str, s: &[i64], f: &[f64]) -> Result<(), String> {
    let mut t = String::new();
    for v in s {
        t += &format!("{} ", v);
    }
    if !f.is_empty() {
        if !s.is_empty() {
            t += " ";
        }
        t += "F: ";
    }
    let mut rest = match out.strip_prefix(t.as_str()) {
        Some(r) => r,
        None => return Err(t),
    };
    for v in f {
        // Halves may be rounded either way.
        let alt = crate::props::c05::fixed(*v, 7);
        match alt.iter().find_map(|a| rest.strip_prefix(a.as_str()).and_then(|r| r.strip_prefix(' '))) {
            Some(r) => rest = r,
            None => return Err(format!("{} … {:?} at {:?}", t, alt, rest)),
        }
    }
    if rest.is_empty() {
        Ok(())
    } else {
        Err(format!("nothing at {:?}", rest))
    }
}

fn stacks(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = Vm::new();
    let ns = if src.chance(1, 6) { 55 + src.usize(9) } // one is left for DEPTH
     else { src.usize(8) };
    let nf = if src.chance(1, 6) { 58 + src.usize(7) } else { src.usize(5) };
    let s: Vec<i64> = (0..ns).map(|_| src.cell()).collect();
    let f: Vec<f64> = (0..nf)
        .map(|_| {
            // Finite values of moderate size: what .S prints of others is not specified.
            match src.below(3) {
                0 => src.range(-1000, 1000) as f64 / 8.0,
                1 => src.range(-99999, 99999) as f64 * 1.0e-3,
                _ => {
                    let x = src.float();
                    if x.is_finite() && x.abs() < 1e30 {
                        x
                    } else {
                        0.5
                    }
                }
            }
        })
        .collect();
    if ns + nf >= 3 {
        ctx.nontrivial();
    }
    let base = *src.pick(&[10i64, 10, 16, 2, 8, 7]);
    let here;
    let mode = src.below(3);
    let w = *src.pick(&[".s", ".s", "depth"]);
    let r = {
        let line = match mode {
            0 => vary_case(src, w),
            _ => format!(": t {} ; ", w),
        };
        vm.eval(&format!("{} base !", base)).map_err(|e| Fail { sig: "base".into(), msg: format!("{}", e) })?;
        note!(ctx, "{} in base {} on {} F: {:?}", line, base, show(&s), f);
        if mode != 0 {
            if let Err(e) = vm.eval(&line) {
                return fail("definition", format!("{} raised {}", line, e));
            }
        }
        here = vm.here();
        vm.take_output();
        for v in &s {
            vm.push(*v);
        }
        for v in &f {
            vm.fpush(*v);
        }
        match mode {
            0 => vm.eval(&line),
            1 => vm.eval("t"),
            _ if ns < 63 => vm.eval_forth("t"),
            _ => vm.eval("t"),
        }
    };
    let out = vm.take_output();
    let got = vm.stack();
    let gotf = vm.fstack();
    let same = gotf.len() == f.len() && gotf.iter().zip(&f).all(|(a, b)| a.to_bits() == b.to_bits());
    ensure!(same, "float stack changed", "{} left {:?}, was {:?}", w, gotf, f);
    ensure!(vm.base() == base && vm.here() == here, "changed something", "base {} here {:+}", vm.base(), vm.here() as i64 - here as i64);
    if w == ".s" {
        ensure!(r.is_ok(), ".s", "raised {:?}", r);
        ensure!(got == s, "stack changed", ".s left {}, was {}", show(&got), show(&s));
        let t = is_stack_text(&out, &s, &f);
        ensure!(t.is_ok(), ".s", "printed {:?}, expected {:?}", out, t);
    } else {
        let mut want = s.clone();
        want.push(ns as i64);
        ensure!(r.is_ok() && got == want && out.is_empty(), "depth", "{:?} left {}, expected {}, printed {:?}", r, show(&got), show(&want), out);
    }
    Ok(())
}

fn names_of(text: &str) -> Vec<String> {
    text.split(' ').map(|x| x.to_string()).collect()
}

/// Words every system has.
const STANDARD: &[&str] = &[
    "dup", "drop", "swap", "+", "-", "*", "/", "mod", "if", "else", "then", "begin", "while", "repeat", "do", "loop", ":", ";",
    "constant", "variable", "create", "does>", "words", ".s", "dump", "emit", "type", "cr", "f+", "f.", "include", "marker",
    "pause", "activate", "open-file", "read-file", "mtime", "utime", "ms", "xtime", ".xtime", "0xtime", "base", "decimal", "hex",
];

fn words(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = Vm::big(64);
    vm.reserve_output(1 << 16);
    // Seldom very many words.
    if src.chance(1, 50) {
        let n = src.usize(2500);
        vm.crowd(n);
        note!(ctx, "{} other words", n);
    }
    vm.eval("words").map_err(|e| Fail { sig: "words".into(), msg: format!("raised {}", e) })?;
    let initial = vm.take_output();
    {
        let names = names_of(&initial);
        for w in STANDARD {
            ensure!(names.iter().any(|n| n == w), "words", "{} is not listed by WORDS", w);
        }
        ensure!(initial.ends_with(' '), "words", "the text of WORDS ends with {:?}", initial.chars().last());
        let i = src.usize(names.len() - 1);
        ensure!(vm.xt(&names[i]).is_some(), "words", "{} is listed but not found", names[i]);
    }
    // Visible names, oldest first.
    let mut own: Vec<String> = vec![];
    let mut marks: Vec<(String, usize)> = vec![];
    let n = 1 + src.usize(8);
    let pool = ["alpha", "beta", "dup", "a-rather-long-name-of-a-word", "é", "x", "y", "+"];
    let mut defs = 0;
    for k in 0..n {
        let nm = if src.chance(1, 3) { format!("n{}", k) } else { src.pick(&pool).to_string() };
        let shown = nm.to_ascii_lowercase();
        let typed = vary_case(src, &nm);
        let (line, expect): (String, Result<(), i64>) = match src.below(10) {
            0 => {
                own.push(shown.clone());
                (format!("5 constant {}", typed), Ok(()))
            }
            1 => {
                own.push(shown.clone());
                (format!("variable {}", typed), Ok(()))
            }
            2 => {
                own.push(shown.clone());
                (format!(": {} 1 ; immediate", typed), Ok(()))
            }
            3 => {
                own.push(shown.clone());
                (format!(": {} 1 ; compile-only", typed), Ok(()))
            }
            4 => (format!(": {} 1 then ;", typed), Err(-22)),
            5 => (format!(": {} nosuchword ;", typed), Err(-13)),
            6 => {
                let m = format!("mark{}", k);
                marks.push((m.clone(), own.len()));
                own.push(m.clone());
                (format!("marker {}", m), Ok(()))
            }
            7 if !marks.is_empty() => {
                let i = src.usize(marks.len());
                let (m, l) = marks[i].clone();
                marks.truncate(i);
                own.truncate(l);
                (m, Ok(()))
            }
            8 => {
                // WORDS while the definition is incomplete.
                let line = format!(": {} [ words ] 1 ;", typed);
                note!(ctx, "{}", line);
                vm.take_output();
                let r = vm.eval(&line);
                let out = vm.take_output();
                let out = match out.strip_prefix("Redefining ") {
                    Some(rest) if rest.starts_with(shown.as_str()) => rest[shown.len()..].to_string(),
                    _ => out,
                };
                let mut want = String::new();
                for o in own.iter().rev() {
                    want += o;
                    want.push(' ');
                }
                want += &initial;
                ensure!(r.is_ok() && out == want, "words in a definition", "{} printed {:?}… expected {:?}…", line, &cut(&out, 200), &cut(&want, 200));
                own.push(shown.clone());
                defs += 1;
                continue;
            }
            _ => {
                own.push(shown.clone());
                (format!(": {} 1 ;", typed), Ok(()))
            }
        };
        defs += 1;
        note!(ctx, "{}", line);
        let r = vm.eval_reset(&line);
        ensure!(r == expect, "definition", "{} gave {:?}, expected {:?}", line, r, expect);
        vm.take_output();
        if src.chance(1, 2) {
            let here = vm.here();
            let r = if src.chance(1, 3) { vm.eval_forth("words") } else { vm.eval("words") };
            let out = vm.take_output();
            let mut want = String::new();
            for o in own.iter().rev() {
                want += o;
                want.push(' ');
            }
            want += &initial;
            ensure!(r.is_ok() && out == want, "words", "printed {:?}… expected {:?}…", &cut(&out, 300), &cut(&want, 300));
            ensure!(vm.stack().is_empty() && vm.here() == here, "changed something", "words left {}", show(&vm.stack()));
        }
        // .WORD
        if src.chance(1, 2) {
            let nm = if !own.is_empty() && src.chance(2, 3) { src.pick(&own).clone() } else { src.pick(&["dup", "if", "lit", "1+", "f.", ".s"]).to_string() };
            let r = vm.eval(&format!("7 ' {} .word", nm));
            let out = vm.take_output();
            ensure!(r.is_ok() && out == format!("{} ", nm) && vm.stack() == vec![7], ".word", "of {} printed {:?} ({:?}), stack {}", nm, out, r, show(&vm.stack()));
            vm.clear();
        }
        if src.chance(1, 6) {
            let x = *src.pick(&[-1i64, i64::MIN, i64::MAX, 1 << 40, 100_000]);
            let r = vm.eval(&format!("7 {} .word", x));
            let out = vm.take_output();
            ensure!(r.is_ok() && out == "unknown " && vm.stack() == vec![7], ".word", "of {} printed {:?} ({:?})", x, out, r);
            vm.clear();
        }
        if src.chance(1, 6) {
            let r = vm.eval("7 .memory");
            let out = vm.take_output();
            let (b, h, l) = (vm.start(), vm.here(), vm.limit());
            // The numbers, whatever the words around them
            let mut got = vec![];
            for t in out.split(|c: char| !c.is_ascii_alphanumeric()) {
                if let Some(x) = t.strip_prefix("0x") {
                    got.push(usize::from_str_radix(x, 16).unwrap_or(0));
                } else if let Ok(x) = t.parse::<usize>() {
                    got.push(x);
                }
            }
            ensure!(r.is_ok() && vm.stack() == vec![7] && [l - b, h - b, b, l, h].iter().all(|x| got.contains(x)), ".memory", "prints {out:?}; the data space is {b:x}..{l:x}, HERE {h:x}");
            vm.clear();
        }
    }
    if defs >= 2 {
        ctx.nontrivial();
    }
    Ok(())
}

fn cut(s: &str, n: usize) -> String {
    s.chars().take(n).collect()
}

fn dump(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = Vm::new();
    vm.reserve_output(1 << 14);
    vm.eval("create buf 400 allot").map_err(|e| Fail { sig: "allot".into(), msg: format!("{}", e) })?;
    vm.eval("buf").ok();
    let buf = vm.stack()[0] as usize;
    vm.clear();
    for i in 0..400 {
        let b = match src.below(4) {
            0 => src.below(256) as u8,
            1 => 32 + src.below(96) as u8,
            2 => *src.pick(&[0u8, 127, 128, 255, 31, 32, 126, 160, 159]),
            _ => b'a' + (i % 26) as u8,
        };
        vm.bytes_mut(buf + i, 1)[0] = b;
    }
    let off = src.usize(100);
    let n = match src.below(6) {
        0 => 0,
        1 => -src.range(1, 100),
        2 => src.range(1, 8),
        3 => src.range(8, 32),
        4 => src.range(0, 12) * 8,
        _ => src.range(0, 280),
    };
    let base = *src.pick(&[10i64, 16, 2, 8]);
    let rest: Vec<i64> = (0..src.usize(4)).map(|_| src.cell()).collect();
    for v in &rest {
        vm.push(*v);
    }
    vm.push((buf + off) as i64);
    vm.push(n);
    vm.eval(&format!("{} base !", base)).ok();
    let before = vm.bytes(buf, 400).to_vec();
    let here = vm.here();
    note!(ctx, "dump of buf+{} {} in base {}: {:?}", off, n, base, &before[off..off + (n.max(0) as usize).min(300)]);
    vm.take_output();
    let r = if src.chance(1, 3) { vm.eval_forth("dump") } else { vm.eval("dump") };
    let out = vm.take_output();
    let mut want = String::new();
    let mut a = off;
    let mut lines = 0;
    while (a as i64) < off as i64 + n {
        want += &format!("{:>4} :  ", format!("{:X}", buf + a)).replace(" :  ", ":");
        want += " ";
        for i in 0..8 {
            want += &format!("{:>3}", format!("{:X}", before[a + i]));
        }
        want += "  ";
        for i in 0..8 {
            let c = before[a + i] & 0x7f;
            want.push(if (32..127).contains(&c) { c as char } else { '_' });
        }
        want += "\n";
        a += 8;
        lines += 1;
    }
    // H.R leaves no space.
    if lines >= 2 {
        ctx.nontrivial();
    }
    ensure!(r.is_ok(), "dump", "raised {:?}", r);
    let norm = |s: &str| s.to_string();
    ensure!(norm(&out) == norm(&want), "dump", "printed {:?}, expected {:?}", out, want);
    ensure!(vm.stack() == rest && vm.base() == base && vm.here() == here && vm.bytes(buf, 400) == &before[..], "changed something", "stack {} base {}", show(&vm.stack()), vm.base());
    Ok(())
}

const ERRORS: &[(&str, i64, &str)] = &[
    ("nosuchword", -13, "Undefined word"),
    ("1 0 /", -10, "Division by zero"),
    ("1 0 mod", -10, "Division by zero"),
    ("drop", -4, "Stack underflow"),
    ("fdrop", -45, "Floating point stack underflow"),
    ("0 @", -9, "Invalid memory address"),
    ("then", -14, "Interpreting a compile only word"),
    (": x then ;", -22, "Control structure mismatch"),
    ("0labels : x [ 0 ] label ;", -24, "Invalid numeric argument"),
    ("abort", -1, "Aborted"),
    ("constant", -39, "Unexpected end of file"),
    ("99999999999 allot", -8, "Dictionary overflow"),
    ("7 base ! 5 5 .r", -21, "Unsupported operation"),
];

fn source(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = Vm::new();
    vm.reserve_output(1 << 14);
    match src.below(4) {
        0 => {
            // .INPUT prints the whole current line, .TOKEN the last token.
            let mut line = String::new();
            let mut want = String::new();
            let n = 1 + src.usize(6);
            let mut probes: Vec<(usize, u8)> = vec![];
            for _ in 0..n {
                let sp = *src.pick(&[" ", "  ", "\t"]);
                match src.below(5) {
                    0 => line += "1",
                    1 => {
                        probes.push((line.len(), 0));
                        line += &vary_case(src, ".input");
                    }
                    2 => {
                        let w = vary_case(src, ".token");
                        line += &w;
                        probes.push((line.len(), 1));
                        want += &w;
                        // Placeholders are filled below.
                    }
                    3 => line += "( é comment )",
                    _ => line += "noop",
                }
                line += sp;
            }
            if src.chance(1, 2) {
                line += "\\ the rest é";
            }
            let _ = want;
            let mut want = String::new();
            for (at, k) in &probes {
                if *k == 0 {
                    want += &line;
                } else {
                    want += &line[at - 6..*at];
                }
            }
            note!(ctx, "{:?}", line);
            if probes.len() >= 1 {
                ctx.nontrivial();
            }
            let r = if src.chance(1, 3) { vm.eval_forth(&line) } else { vm.eval(&line) };
            let out = vm.take_output();
            ensure!(r.is_ok() && out == want, ".input .token", "{:?} gave {:?} {:?}, expected {:?}", line, r, out, want);
        }
        1 => {
            // From a definition: .TOKEN is the name as typed or what was parsed last.
            let arg = *src.pick(&["xyz", "é", "12", "a\"b", "(", "DUP"]);
            let typed = vary_case(src, "t");
            let line = format!("{} {} source-id 5", typed, arg);
            let parse = src.chance(1, 2);
            let def = if parse { ": t parse-word .token .input ;" } else { ": t .token parse-word .input ;" };
            note!(ctx, "{} {}", def, line);
            ctx.nontrivial();
            vm.eval(def).ok();
            vm.take_output();
            let r = if src.chance(1, 3) { vm.eval_forth(&line) } else { vm.eval(&line) };
            let out = vm.take_output();
            let want = format!("{}{}", if parse { arg } else { &typed }, line);
            ensure!(r.is_ok() && out == want && vm.stack() == vec![0, 5], ".token in a definition", "{:?} {:?} expected {:?} stack {}", r, out, want, show(&vm.stack()));
        }
        2 => {
            // .ERROR describes the last error; nothing without an error.
            vm.dot_error();
            let out = vm.take_output();
            ensure!(out.is_empty(), ".error", "{:?} without an error", out);
            for _ in 0..1 + src.usize(3) {
                let (text, code, what) = *src.pick(ERRORS);
                let pre = if src.chance(1, 2) { "noop " } else { "" };
                note!(ctx, "{}{}", pre, text);
                ctx.nontrivial();
                let r = vm.eval(&format!("{}{}", pre, text));
                ensure!(r == Err(code), "error", "{} gave {:?}, expected {}", text, r, code);
                vm.take_output();
                vm.dot_error();
                let out = vm.take_output();
                ensure!(out == what, ".error", "after {} printed {:?}, expected {:?}", text, out, what);
                vm.host_reset();
                vm.eval("decimal").ok();
            }
        }
        _ => {
            // In files.
            let dir = ctx.scratch().clone();
            let n = 1 + src.usize(4);
            let mut text = String::new();
            let mut want = String::new();
            let mut ids = vec![];
            for k in 0..n {
                let (l, w): (String, String) = match src.below(4) {
                    0 => {
                        let l = format!("{} .input", "noop ".repeat(src.usize(3)));
                        (l.clone(), l)
                    }
                    1 => {
                        ids.push(k);
                        ("source-id".into(), String::new())
                    }
                    2 => ("noop .token".into(), ".token".into()),
                    _ => (String::new(), String::new()),
                };
                text += &l;
                text += "\n";
                // The output is flushed after each line.
                let w = if k == 0 { format!(" {}", w) } else { w };
                if !w.is_empty() {
                    want += &w;
                    want += "\n";
                }
            }
            let p = dir.join("f.fth");
            std::fs::write(&p, &text).unwrap();
            ctx.nontrivial();
            note!(ctx, "file {:?}", text);
            let lines = vec![format!("include {} .s source-id .", p.display())];
    let _ = crate::capture::take();
            let mut vm = Vm::repl(&lines);
            vm.run_repl();
            let out = crate::vm::SESSION.with(|s| s.borrow().clone());
            let out = out.last().cloned().unwrap_or_default();
            // Source-ids of files are positive and the same within a file.
            let tail = out.strip_prefix(want.as_str());
            ensure!(tail.is_some(), ".input in a file", "{:?} printed {:?}, expected {:?} first", text, out, want);
            let t: Vec<String> = tail.unwrap().split_whitespace().map(|x| x.to_string()).collect();
            ensure!(t.len() == ids.len() + 2 && t.last().unwrap() == "ok" && t[t.len() - 2] == "0", "source-id", "{:?} printed {:?}", text, out);
            for w in &t[..ids.len()] {
                ensure!(w == &t[0] && w.parse::<i64>().map_or(false, |v| v > 0), "source-id", "in a file: {:?}", t);
            }
        }
    }
    Ok(())
}

fn backtrace(src: &mut Src, ctx: &mut Ctx) -> R {
    // A chain of definitions which ends with an error.
    let mut vm = Vm::new();
    // Sometimes nearly as deep as the return stack is.
    let n = if src.chance(1, 6) { 8 + src.usize(48) } else { 1 + src.usize(7) };
    let errs: &[(&str, &str, &str)] = &[
        ("1 0 /", "/", "Division by zero"),
        ("1 0 mod", "mod", "Division by zero"),
        ("1 0 /mod", "/mod", "Division by zero"),
        ("0 @", "@", "Invalid memory address"),
        ("0 c@", "c@", "Invalid memory address"),
        ("5 -1 !", "!", "Invalid memory address"),
        ("0 0 allot 999999999999 allot", "allot", "Dictionary overflow"),
    ];
    let (code, word, _) = *src.pick(errs);
    let names: Vec<String> = (0..n).map(|k| format!("{}{}", src.pick(&["a", "word-", "LONG-name-"]), k)).collect();
    let mut text = vec![];
    for k in 0..n {
        let call = if k == 0 { code.to_string() } else { names[k - 1].clone() };
        let body = match src.below(6) {
            0 => format!("5 drop {} 6", call),
            1 => format!("true if {} else 1 then", call),
            2 => format!("begin {} again", call),
            3 => format!("{} exit 7", call),
            4 => format!("case 1 endcase {}", call).replace("case 1 endcase ", "1 case 2 of 5 endof endcase "),
            _ => call,
        };
        text.push(format!(": {} {} ;", names[k], body));
        if src.chance(1, 4) {
            text.push(format!(": other{} 5 ;", k));
        }
    }
    if src.chance(1, 4) {
        text.push("create space-after 10 allot".into());
    }
    for l in &text {
        note!(ctx, "{}", l);
        if let Err(e) = vm.eval(l) {
            return fail("definition", format!("{} raised {}", l, e));
        }
    }
    ctx.nontrivial();
    let want: String = names.iter().rev().map(|x| format!("{} ", x.to_ascii_lowercase())).collect::<String>() + word + " ";
    {
        // Seldom behind very many other words.
        let mut lines = if src.chance(1, 50) { crate::vm::crowd_text(src.usize(2500)) } else { vec![] };
        note!(ctx, "{} lines of other words", lines.len());
        lines.extend(text.clone());
        lines.push(names[n - 1].clone());
    let _ = crate::capture::take();
        let mut vm = Vm::repl(&lines);
        vm.run_repl();
        let out = crate::vm::SESSION.with(|s| s.borrow().clone());
        let out = out.last().cloned().unwrap_or_default();
        let w = format!(", backtrace: quit evaluate-input {}(abort) \r", want);
        ensure!(out.contains(&w), ".backtrace", "printed {:?}, expected {:?} in it", out, w);
    }
    Ok(())
}

fn clock(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = Vm::new();
    let mut now = match src.below(4) {
        0 => src.below(5_000_000),
        1 => src.below(1 << 40),
        2 => src.below(1 << 62),
        _ => (1u64 << src.below(63)).wrapping_sub(src.below(3)) & (u64::MAX >> 1),
    };
    if src.chance(1, 2) {
        // Right at, before or after the beginning of a unit
        let unit = *src.pick(&[1_000u64, 1_000_000]);
        now = (now / unit * unit).saturating_add(src.below(3)).saturating_sub(1);
    }
    vm.eval(": m mtime ; : u utime ;").ok();
    for _ in 0..1 + src.usize(6) {
        now = now.saturating_add(match src.below(4) {
            0 => 0,
            1 => src.below(1000),
            2 => src.below(3_000_000),
            _ => src.below(1 << 40),
        });
        if src.chance(1, 3) {
            let unit = *src.pick(&[1_000u64, 1_000_000]);
            now = (now / unit + 1) * unit - src.below(2);
        }
        now = now.min(i64::MAX as u64);
        vm.now = now;
        let (w, want) = *src.pick(&[("mtime", now / 1_000_000), ("m", now / 1_000_000), ("utime", now / 1000), ("u", now / 1000)]);
        note!(ctx, "{} at {} ns", w, now);
        ctx.nontrivial();
        let w2 = vary_case(src, w);
        let r = if src.chance(1, 3) { vm.eval_forth(&format!("3 {}", w2)) } else { vm.eval(&format!("3 {}", w2)) };
        let s = vm.stack();
        ensure!(r.is_ok() && s == vec![3, want as i64], w, "at {} ns gave {:?} {}, expected {}", now, r, show(&s), want);
        vm.clear();
    }
    Ok(())
}

fn ms(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = Vm::new();
    vm.now = src.below(1 << 50);
    vm.tick = match src.below(3) {
        0 => src.below(2_000_000),
        1 => 1 + src.below(400_000),
        _ => 1_000_000 * (1 + src.below(3)),
    }
    .max(50_000);
    let n = match src.below(6) {
        0 => 0,
        1 => -src.range(1, 5),
        2 => 1,
        _ => src.range(0, 40),
    };
    let tasks = src.usize(4);
    // The clock advances whenever it is read, or in one of the other tasks.
    let step = if tasks > 0 && src.chance(1, 2) { 50_000 + src.below(3_000_000) } else { 0 };
    if step > 0 {
        vm.tick = 0;
        DELAYS.with(|d| d.borrow_mut().clear());
        STEP.with(|d| d.set(step));
        vm.add_host_word("advance", host_advance);
    }
    // Counting tasks.
    let mut text = String::from("variable c2 variable c3 variable c4 variable c5 ");
    for t in 0..tasks {
        let k = t + 2;
        text += &format!(": count{k} {k} activate begin 1 c{k} +! {} pause again ; count{k} ", if t == 0 && step > 0 { "advance" } else { "" }, k = k);
    }
    let two = src.chance(1, 4) && tasks < 4 && step == 0;
    if two {
        // Another task which waits as well.
        text += &format!("variable woken : waiter 5 activate {} ms 1 woken ! begin pause again ; waiter ", src.range(0, 20));
    }
    text += &format!(": main 11 22 {} ms 33 ;", n);
    note!(ctx, "{} tick {} step {}", text, vm.tick, step);
    if let Err(e) = vm.eval(&text) {
        return fail("definition", format!("{} raised {}", text, e));
    }
    vm.log_clock = true;
    vm.clock_log.clear();
    // The waiter reads the clock, too: only bounds are checked then.
    let t0 = vm.now + clock_of(&vm);
    let how = src.below(3);
    let r = match how {
        0 => vm.eval("main"),
        1 => vm.eval_forth("main"),
        _ => {
            let l = format!("11 22 {} ms 33", n);
            vm.eval(&l)
        }
    };
    let end = vm.now + clock_of(&vm) - vm.tick;
    let s = vm.stack();
    ensure!(r.is_ok() && s == vec![11, 22, 33], "ms", "{} ms gave {:?} {}", n, r, show(&s));
    let waited = end / 1_000_000 - t0 / 1_000_000;
    ensure!(waited as i64 >= n, "ms returns too early", "{} ms waited from {} to {} ns", n, t0, end);
    if step > 0 {
        // How often the others have to run until it is late enough.
        let mut rounds = 0;
        while ((t0 + rounds * step) / 1_000_000 - t0 / 1_000_000) < n.max(0) as u64 {
            rounds += 1;
        }
        if rounds > 0 {
            ctx.nontrivial();
        }
        let c = counts(&mut vm, tasks)?;
        ensure!(c.iter().all(|c| *c == rounds as i64), "other tasks run during ms", "tasks ran {} times, expected {} each", show(&c), rounds);
    } else if !two {
        // It returns soon after the first reading that is late enough. How often
        // the clock is read in each round is not specified.
        let prev = end.saturating_sub(4 * vm.tick);
        ensure!(prev < t0 + vm.tick || ((prev / 1_000_000 - t0 / 1_000_000) as i64) < n, "ms returns too late", "{} ms waited from {} to {} ns, tick {}", n, t0, end, vm.tick);
        let readings = (end - t0) / vm.tick + 1;
        if readings > 2 {
            ctx.nontrivial();
        }
        let c = counts(&mut vm, tasks)?;
        let (low, high) = (readings.saturating_sub(4) as i64 / 4, readings as i64);
        ensure!(c.iter().all(|x| *x == c[0] && low <= *x && *x <= high), "other tasks run during ms", "tasks ran {} times, the clock was read {} times", show(&c), readings);
    } else {
        ctx.label("two tasks wait");
    }
    Ok(())
}

fn clock_of(vm: &Vm) -> u64 {
    vm.clock_value()
}

thread_local! {
    static DELAYS: RefCell<Vec<u64>> = RefCell::new(vec![]);
}

thread_local! {
    static STEP: std::cell::Cell<u64> = std::cell::Cell::new(0);
}

/// Lets time pass.
fn host_advance(vm: &mut Vm) {
    vm.now += STEP.with(|d| d.get());
}

fn counts(vm: &mut Vm, tasks: usize) -> Result<Vec<i64>, Fail> {
    let mut o = vec![];
    for t in 0..tasks {
        vm.clear();
        let r = vm.eval(&format!("c{} @", t + 2));
        let c = vm.stack();
        ensure!(r.is_ok() && c.len() == 1, "counter", "c{} gave {:?} {}", t + 2, r, show(&c));
        o.push(c[0]);
    }
    Ok(o)
}

/// Lets time pass.
fn host_delay(vm: &mut Vm) {
    let d = DELAYS.with(|d| d.borrow_mut().pop().unwrap_or(0));
    vm.now += d;
}

fn xtime(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = Vm::new();
    vm.reserve_output(1 << 12);
    vm.add_host_word("delay", host_delay);
    vm.now = src.below(1 << 50);
    if src.chance(1, 4) {
        // Near the end of a range of microseconds
        vm.now = ((1u64 << src.range(20, 52)) * 1000).saturating_sub(src.below(20_000_000));
    }
    vm.tick = 0;
    // Measured words, oldest first.
    let mut words = vec![
        ("w-plain", ": w-plain delay ;"),
        ("w-add", ": w-add delay + ;"),
        ("w-dup", ": w-dup dup delay delay ;"),
        ("w-const", "5 constant w-const"),
        ("w-loop", ": w-loop 3 0 do delay i + loop ;"),
        ("w-exit", ": w-exit dup if delay exit then delay delay ;"),
        ("w-err", ": w-err delay 1 0 / ;"),
    ];
    for i in (1..words.len()).rev() {
        let j = src.usize(i + 1);
        words.swap(i, j);
    }
    words.truncate(1 + src.usize(words.len()));
    let mut order = vec!["+", "dup"];
    for (n, d) in words {
        if let Err(e) = vm.eval(d) {
            return fail("definition", format!("{} raised {}", d, e));
        }
        order.push(n);
    }
    order.sort_by_key(|w| vm.xt(w));
    let mut times: Vec<(&str, u64, u64)> = vec![];
    let mut k = 0;
    for _ in 0..2 + src.usize(8) {
        match src.below(8) {
            0 => {
                note!(ctx, "0xtime");
                let r = vm.eval("0xtime");
                ensure!(r.is_ok() && vm.stack().is_empty(), "0xtime", "{:?} {}", r, show(&vm.stack()));
                times.clear();
            }
            1 | 2 => {
                let r = if src.chance(1, 3) { vm.eval_forth(".xtime") } else { vm.eval(".xtime") };
                let out = vm.take_output();
                let mut want = vec![];
                for w in order.iter().rev() {
                    if let Some(t) = times.iter().find(|t| t.0 == *w) {
                        want.push(format!("{}|{},{}", w, t.1, t.2));
                    }
                }
                let want = want.join("|");
                note!(ctx, ".xtime");
                ensure!(r.is_ok() && vm.stack().is_empty() && out == want, ".xtime", "printed {:?}, expected {:?}", out, want);
            }
            _ => {
                let w = *src.pick(&order);
                let calls = match w {
                    "w-dup" => 2,
                    "w-loop" => 3,
                    "w-exit" => 3,
                    "+" | "dup" | "w-const" => 0,
                    _ => 1,
                };
                let unit = *src.pick(&[0u64, 0, 100, 999, 1000, 1500, 1_000_000, 123_456_789]);
                let delays: Vec<u64> = (0..calls).map(|_| {
                        let m = 1 + src.below(3000);
                        unit + src.below(m)
                    }).collect();
                let st: Vec<i64> = vec![src.range(-5, 5), src.range(0, 3), src.range(0, 1)];
                let start = vm.now;
                let text = st.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
                // Without measuring.
                DELAYS.with(|d| *d.borrow_mut() = delays.clone());
                let r1 = vm.eval_reset(&format!("{} {}", text, w));
                let s1 = vm.stack();
                vm.clear();
                let plain = vm.now - start;
                let start = vm.now;
                DELAYS.with(|d| *d.borrow_mut() = delays.clone());
                let line = format!("{} utime ' {} xtime", text, w);
                note!(ctx, "{} with delays {:?}", line, delays);
                let forth = src.chance(1, 3);
                let r2 = if forth { vm.eval_forth(&line) } else { vm.eval(&line) };
                let s2 = vm.stack();
                let spent = vm.now - start;
                ensure!(spent == plain, "xtime runs the word unchanged", "{} called delay for {} ns, without xtime {} ns", line, spent, plain);
                if r2.is_err() {
                    vm.host_reset();
                }
                ensure!(r1 == r2 && (r1.is_err() || s1 == s2), "xtime runs the word unchanged", "{} gave {:?} {}, without xtime {:?} {}", line, r2, show(&s2), r1, show(&s1));
                vm.clear();
                vm.take_output();
                if r2.is_ok() {
                    k += 1;
                    let t = (start + spent) / 1000 - start / 1000;
                    match times.iter_mut().find(|x| x.0 == w) {
                        Some(x) => {
                            x.1 = x.1.min(t);
                            x.2 = x.2.max(t);
                        }
                        None => times.push((w, t, t)),
                    }
                }
            }
        }
    }
    if k >= 3 {
        ctx.nontrivial();
    }
    Ok(())
}
