//! C17: loading source files equals typing their lines.
use crate::capture;
use crate::engine::*;
use crate::props::c13;
use crate::vm::{Vm, SESSION};

pub fn property() -> Property {
    Property {
        id: "C17",
        rule: "Family tree: a program is split into a tree of files which include each other (before, between and behind other words of a line, by INCLUDE and INCLUDED, several in a row, the same file again, with \\\\ at any line; LF, CRLF or mixed ends, with or without a final one, empty and long lines) and evaluated; a second machine is given all lines in order; both must agree in stacks, output, exception, BASE, data-space use, and the source that is left. Family depth: chains of 0 to 40 nested files, again and again with failing ones in between. Family report: sessions of the read-eval loop in which a line of a nested file fails; the report must name the token, path, line number and line text, what was loaded before stays and later lines and files work. Family lines: LOAD-LINE on files of any text against a split of the text. Family missing: files that do not exist. Non-trivial: at least two files and six lines; an error at depth two; three lines.",
        families: vec![
            Family { name: "tree", quick: 90_000, thorough: 900_000, run: tree },
            Family { name: "depth", quick: 8_000, thorough: 60_000, run: depth },
            Family { name: "report", quick: 30_000, thorough: 300_000, run: report },
            Family { name: "lines", quick: 110_000, thorough: 1_000_000, run: lines },
            Family { name: "missing", quick: 12_000, thorough: 100_000, run: missing },
        ],
        probes: vec![],
        assumptions: vec!["definitions do not extend over the end of a file", "FLUSH-OUTPUT behind each line may add line ends to the output", "file names contain no spaces and have at most 255 bytes"],
    }
}

#[derive(Clone, Debug)]
enum Part {
    Lines(Vec<String>),
    /// Text before and behind an include of a file.
    Include(String, usize, String, bool),
    /// \\ and what follows it.
    End(String),
}

struct Tree {
    files: Vec<Vec<Part>>,
}

fn plain(src: &mut Src) -> String {
    match src.usize(4) {
        0 => String::new(),
        1 => format!("{} .", src.small()),
        2 => "1 2 + drop".into(),
        _ => format!("va @ {} + va ! va @ .", src.range(1, 9)),
    }
}

fn gen_file(src: &mut Src, t: &mut Tree, level: usize) -> usize {
    let mut parts = vec![];
    let n = 1 + src.usize(3);
    for _ in 0..n {
        if src.chance(1, 2) {
            parts.push(Part::Lines(c13::gen_lines(src)));
        } else {
            parts.push(Part::Lines((0..src.usize(4)).map(|_| plain(src)).collect()));
        }
        if level > 0 && src.chance(3, 5) && t.files.len() < 12 {
            let f = if !t.files.is_empty() && src.chance(1, 4) { src.usize(t.files.len()) } else { gen_file(src, t, level - 1) };
            let (a, b) = (plain(src), plain(src));
            parts.push(Part::Include(a, f, b, src.chance(1, 4)));
        }
        if src.chance(1, 12) {
            let s = plain(src);
            parts.push(Part::End(s));
        }
    }
    t.files.push(parts);
    t.files.len() - 1
}

fn path(k: usize) -> String {
    format!("f{k}.fth")
}

/// The lines as they would be typed. The sizes of trees are bounded by the generator.
fn flatten(t: &Tree, k: usize, out: &mut Vec<String>) {
    for p in &t.files[k] {
        match p {
            Part::Lines(l) => out.extend(l.iter().cloned()),
            Part::Include(a, f, b, _) => {
                out.push(a.clone());
                if out.len() < 3000 {
                    flatten(t, *f, out);
                }
                out.push(b.clone());
            }
            Part::End(_) => return,
        }
    }
}

fn include(k: usize, word: bool) -> String {
    if word { format!("inc{k}") } else { format!("include {}", path(k)) }
}

fn file_lines(parts: &[Part], src: &mut Src) -> Vec<String> {
    let mut l = vec![];
    for p in parts {
        match p {
            Part::Lines(x) => l.extend(x.iter().cloned()),
            Part::Include(a, f, b, w) => {
                // Seldom far from the beginning of the line.
                let pad = if src.chance(1, 50) { format!("( {}) ", "text ".repeat(src.usize(15_000))) } else { String::new() };
                l.push(format!("{a} {pad}{} {b}", include(*f, *w)))
            }
            Part::End(s) => l.push(format!("\\\\ {s}")),
        }
    }
    l
}

fn write_file(src: &mut Src, name: &str, lines: &[String]) {
    let style = src.usize(3);
    let last = src.chance(1, 2);
    let mut s = String::new();
    let n = lines.len();
    for (i, l) in lines.iter().enumerate() {
        s += l;
        if src.chance(1, 60) {
            s += &" ".repeat(src.usize(9000));
        }
        if i + 1 < n || last {
            s += match style {
                0 => "\n",
                1 => "\r\n",
                _ => *src.pick(&["\n", "\r\n"]),
            };
        }
        if src.chance(1, 12) && i + 1 < n {
            s += *src.pick(&["\n", "\r\n", " \n", "\n\n"]);
        }
    }
    std::fs::write(name, s).unwrap();
}

struct Seen {
    result: Result<(), i64>,
    stack: Vec<i64>,
    fstack: Vec<u64>,
    out: String,
    va: i64,
    base: i64,
    compiling: bool,
    source: i64,
}

fn observe(vm: &mut Vm, result: Result<(), i64>, out: String) -> Seen {
    let stack = vm.stack();
    let fstack = vm.fstack().iter().map(|x| x.to_bits()).collect();
    let compiling = vm.is_compiling();
    let base = vm.base();
    if result.is_err() {
        vm.host_reset();
    }
    vm.clear();
    let _ = vm.eval("va @ source-id");
    let s = vm.stack();
    Seen { result, stack, fstack, out, va: s.first().copied().unwrap_or(-1), source: s.get(1).copied().unwrap_or(-1), base: base as i64, compiling }
}

fn setup(vm: &mut Vm, n: usize) {
    if let Err(e) = vm.eval("variable va") {
        std::panic::panic_any(format!("setup {e}"));
    }
    for k in 0..n {
        if let Err(e) = vm.eval(&format!(": inc{k} s\" {}\" included ;", path(k))) {
            std::panic::panic_any(format!("setup {e}"));
        }
    }
    vm.take_output();
}

fn strip(s: &str) -> String {
    s.chars().filter(|c| *c != '\n').collect()
}

fn tree(src: &mut Src, ctx: &mut Ctx) -> R {
    std::env::set_current_dir(ctx.scratch().clone()).ok();
    let mut t = Tree { files: vec![] };
    let tops = 1 + src.usize(3);
    let depth = src.usize(5);
    let roots: Vec<usize> = (0..tops).map(|_| gen_file(src, &mut t, depth)).collect();
    for (k, f) in t.files.iter().enumerate() {
        let l = file_lines(f, src);
        note!(ctx, "{}: {:?}", path(k), l.iter().map(|x| x.chars().take(300).collect::<String>()).collect::<Vec<_>>());
        write_file(src, &path(k), &l);
    }
    // The lines which are typed.
    let mut typed = vec![];
    let mut flat = vec![];
    let mut row = String::new();
    for r in &roots {
        let (a, b) = (plain(src), plain(src));
        let w = src.chance(1, 4);
        row += &format!("{a} {} {b} ", include(*r, w));
        flat.push(a);
        flatten(&t, *r, &mut flat);
        flat.push(b);
        if src.chance(1, 2) {
            typed.push(std::mem::take(&mut row));
        }
    }
    typed.push(row);
    if flat.len() >= 3000 {
        return Ok(());
    }
    let forth = src.chance(1, 2);
    note!(ctx, "typed: {typed:?}{}", if forth { " (evaluate-input)" } else { "" });
    let n = t.files.len();
    let mut vm = Vm::big(24);
    setup(&mut vm, n);
    let _ = capture::take();
    let mut r = Ok(());
    for l in &typed {
        r = if forth { vm.eval_forth(l) } else { vm.eval(l) };
        if r.is_err() {
            break;
        }
    }
    let out = capture::take() + &vm.take_output();
    let here = vm.here();
    let used = here - vm.start();
    let a = observe(&mut vm, r, out);
    let mut vm = Vm::big(24);
    setup(&mut vm, n);
    let mut r = Ok(());
    for l in &flat {
        r = if forth { vm.eval_forth(l) } else { vm.eval(l) };
        if r.is_err() {
            break;
        }
    }
    let out = capture::take() + &vm.take_output();
    let here = vm.here();
    let used2 = here - vm.start();
    let b = observe(&mut vm, r, out);
    ensure!(a.result == b.result, "exception", "loaded {:?}, typed {:?}", a.result, b.result);
    ensure!(strip(&a.out) == strip(&b.out), "output", "loaded: {:?}, typed: {:?}", strip(&a.out), strip(&b.out));
    ensure!(a.stack == b.stack, "stack", "loaded: {:?}, typed: {:?}", a.stack, b.stack);
    ensure!(a.fstack == b.fstack, "fstack", "float stacks differ");
    ensure!(a.va == b.va, "variable", "loaded: {}, typed: {}", a.va, b.va);
    ensure!(a.base == b.base && a.compiling == b.compiling, "state", "BASE {} and {}, state {} and {}", a.base, b.base, a.compiling, b.compiling);
    ensure!(a.source == 0, "source", "the input source is {} afterwards", a.source);
    ensure!(used == used2, "here", "loaded: {used} bytes, typed: {used2} bytes");
    if n >= 2 && flat.len() >= 6 {
        ctx.nontrivial();
    }
    if a.result.is_err() {
        ctx.label("with an error");
    }
    Ok(())
}

/// Chains of nested files.
fn depth(src: &mut Src, ctx: &mut Ctx) -> R {
    std::env::set_current_dir(ctx.scratch().clone()).ok();
    let forth = src.chance(1, 2);
    let mut vm = Vm::new();
    setup(&mut vm, 1);
    let rounds = 1 + src.usize(4);
    let mut deep = false;
    for _ in 0..rounds {
        let n = match src.usize(4) {
            0 => src.usize(5),
            1 => 10 + src.usize(5),
            2 => 15,
            _ => 16 + src.usize(25),
        };
        // File 1 includes file 2 and so on; a failing line at one of them.
        let bad = if src.chance(1, 4) { Some(1 + src.usize(20)) } else { None };
        for k in 1..=n {
            let mut l = vec![format!("{k} va +!")];
            if bad == Some(k) {
                l.push("zork".into());
            }
            l.push(if k < n { format!("100 va +! include d{}.fth 1000 va +!", k + 1) } else { "5 va +!".into() });
            l.push("7 va +!".into());
            write_file(src, &format!("d{k}.fth"), &l);
        }
        let _ = vm.eval("0 va !");
        let line = if n == 0 { "3 4".to_string() } else { "3 include d1.fth 4".to_string() };
        note!(ctx, "{line}: {n} levels, error in {bad:?}");
        let r = if forth { vm.eval_forth(&line) } else { vm.eval(&line) };
        let _ = capture::take();
        let fails = bad.map(|b| b <= n).unwrap_or(false);
        if fails && (n <= 15 || bad.unwrap() <= 15) {
            ensure!(r == Err(-13), "exception", "{r:?}");
        } else if n > 15 {
            ensure!(r.is_err(), "too deep", "{n} levels are accepted");
            deep = true;
        } else {
            ensure!(r == Ok(()) && vm.stack() == [3, 4], "nested", "{n} levels: {r:?}, stack {:?}", vm.stack());
        }
        let upto = if fails { bad.unwrap().min(n) } else { n };
        if r.is_err() {
            vm.host_reset();
        }
        vm.clear();
        let e = vm.eval("va @ source-id");
        ensure!(e == Ok(()), "after", "{e:?}");
        let s = vm.stack();
        vm.clear();
        ensure!(s[1] == 0, "source", "source {} afterwards", s[1]);
        if r == Ok(()) || n <= 15 {
            let mut v = 0i64;
            for k in 1..=upto {
                v += k as i64;
                if fails && k == upto {
                    break;
                }
                if k < n {
                    v += 100;
                } else {
                    v += 5;
                }
            }
            if !fails && n > 0 {
                v += 1000 * (n as i64 - 1) + 7 * n as i64;
            }
            ensure!(s[0] == v, "effect", "{n} levels, error in {bad:?}: va is {}, expected {v}", s[0]);
        }
        if n >= 3 {
            ctx.nontrivial();
        }
    }
    if deep {
        ctx.label("too deep");
    }
    Ok(())
}

/// Reports of errors in files.
fn report(src: &mut Src, ctx: &mut Ctx) -> R {
    std::env::set_current_dir(ctx.scratch().clone()).ok();
    let rounds = 1 + src.usize(3);
    let mut session = vec!["variable va : show va @ . ;".to_string()];
    // Line of the session, token, description, path, line number, text, value of va.
    let mut expect: Vec<(usize, String, String, usize, String)> = vec![];
    let mut vals: Vec<(usize, i64)> = vec![];
    let mut va = 0i64;
    for r in 0..rounds {
        let n = 1 + src.usize(6);
        let fails = src.chance(4, 5);
        let (token, before, what): (&str, &str, &str) = *src.pick(&[
            ("zork", "", "Undefined word"), ("/", "1 0", "Division by zero"), ("drop", "", "Stack underflow"), ("then", "", "Interpreting a compile only word"), ("@", "3", "Invalid memory address"), ("inner", ": inner 1 0 / ; ", "Division by zero"),
            ("fdrop", "", "Floating-point stack underflow"), (";", ": w if", "Control structure mismatch"),
        ]);
        // Seldom a long path.
        let dots: Vec<String> = (0..=n).map(|_| if src.chance(1, 20) { "./".repeat(src.usize(110)) } else { String::new() }).collect();
        for k in 1..=n {
            let mut l = vec![];
            // Seldom very many lines.
            let many = if src.chance(1, 40) { 200 + src.usize(1500) } else { src.usize(5) };
            for _ in 0..many {
                l.push(match src.usize(4) {
                    0 => String::new(),
                    1 => format!(": q{} {} ;", src.usize(9), src.small()),
                    2 => "\\ a comment".to_string(),
                    _ => {
                        "1 va +!".to_string()
                    }
                });
            }
            va += l.iter().filter(|x| *x == "1 va +!").count() as i64;
            let name = format!("{}{r}-{k}.fth", src.pick(&["e", "e"]));
            // Files included before the line must not disturb its number.
            if src.chance(1, 3) {
                let m: Vec<String> = (0..src.usize(6)).map(|_| "2 va +!".to_string()).collect();
                va += 2 * m.len() as i64;
                write_file_plain(&format!("s{r}-{k}.fth"), &m, src);
                l.push(format!("include s{r}-{k}.fth"));
                if src.chance(1, 30) {
                    // Many files one after the other.
                    let t = src.usize(150);
                    for _ in 0..t {
                        l.push(format!("include s{r}-{k}.fth"));
                    }
                    va += 2 * (m.len() * t) as i64;
                }
                for _ in 0..src.usize(3) {
                    l.push("".into());
                }
            }
            if k == n && fails {
                let long = if src.chance(1, 25) { format!("( {}) ", "é long text ".repeat(src.usize(6000))) } else { String::new() };
                let text = format!("{before} {long}{} {token} {}", src.pick(&["", "( é )"]), src.pick(&["", "1 va +!", "\\ more", "include none.fth"]));
                l.push(text.clone());
                expect.push((session.len(), token.to_string(), what.to_string(), l.len(), text));
                let f = expect.last_mut().unwrap();
                f.2 = format!("{what}|{}{name}", dots[k]);
                // Never executed.
                l.push("5000 va +!".into());
            } else if k < n {
                l.push(format!("include {}e{r}-{}.fth{}", dots[k + 1], k + 1, if fails { " 7000 va +!" } else { " 1 va +!" }));
                if !fails {
                    va += 1;
                }
            }
            if !fails || k < n {
                // Behind the include of the failing file nothing is executed.
                let after = "3 va +!".to_string();
                if !fails {
                    va += 3;
                }
                l.push(after);
            }
            write_file_plain(&name, &l, src);
            note!(ctx, "{name}: {l:?}");
        }
        session.push(format!("include {}e{r}-1.fth", dots[1]));
        session.push("show".into());
        vals.push((session.len() - 1, va));
        if fails && n >= 2 {
            ctx.nontrivial();
        }
    }
    note!(ctx, "session: {session:?}");
    let mut vm = Vm::repl(&session);
    vm.run_repl();
    let out = SESSION.with(|s| s.borrow().clone());
    ensure!(out.len() == session.len() + 1, "ended", "the session ended early: {out:?}");
    for (k, token, what, line, text) in &expect {
        let (what, name) = what.split_once('|').unwrap();
        let o = &out[k + 1];
        let loc = format!(" ({name}:{line}: {text})");
        let t = if token == "inner" { "inner" } else { token };
        let _ = what;
        ensure!(o.contains(&format!("{t} ")), "token", "the report {o:?} does not name {t}");
        ensure!(o.contains(&loc), "location", "the report {o:?} does not contain {loc:?}");
        ensure!(o.ends_with("\r\n") && !o.contains(" ok"), "report", "the report is {o:?}");
    }
    for (k, v) in vals {
        let o = &out[k + 1];
        ensure!(o.contains(&format!(" {v} ")) && o.contains(" ok"), "effect", "SHOW prints {o:?}, expected {v}");
    }
    let failing: Vec<usize> = expect.iter().map(|e| e.0).collect();
    for (k, _) in session.iter().enumerate() {
        if !failing.contains(&k) {
            ensure!(out[k + 1].contains(" ok"), "line", "{:?} prints {:?}", session[k], out[k + 1]);
        }
    }
    Ok(())
}

/// Without added lines.
fn write_file_plain(name: &str, lines: &[String], src: &mut Src) {
    let e = if src.chance(1, 3) { "\r\n" } else { "\n" };
    let mut s = lines.join(e);
    if src.chance(1, 2) && !lines.is_empty() {
        s += e;
    }
    std::fs::write(name, s).unwrap();
}

/// LOAD-LINE on any text.
fn lines(src: &mut Src, ctx: &mut Ctx) -> R {
    std::env::set_current_dir(ctx.scratch().clone()).ok();
    let mut text = String::new();
    let n = src.usize(if src.scale > 1 { 200 } else { 30 });
    for _ in 0..n {
        text += match src.usize(8) {
            0 | 1 => "\n",
            2 => "\r\n",
            3 => *src.pick(&["\r", "\r\r\n", "\n\r", "\t", " ", "\u{85}", "\u{2028}", "\u{b}", "\u{c}", "\u{0}"]),
            4 => *src.pick(&["é", "日本", "🦀", "\u{feff}", "\""]),
            5 => *src.pick(&["\n\n\n", "x\n", "\r\n\r\n"]),
            _ => *src.pick(&["a", "word ", "1 2 3", "( x"]),
        };
        if src.chance(1, 60) {
            text += &"y".repeat(src.usize(20_000));
        }
    }
    std::fs::write("l.fth", &text).unwrap();
    let mut expect: Vec<String> = vec![];
    let mut rest = text.as_str();
    while !rest.is_empty() {
        let (l, r) = match rest.find('\n') {
            Some(k) => {
                let l = &rest[..k];
                (l.strip_suffix('\r').unwrap_or(l), &rest[k + 1..])
            }
            None => (rest, ""),
        };
        expect.push(l.to_string());
        rest = r;
    }
    note!(ctx, "file: {text:?}");
    let mut vm = Vm::new();
    let others = src.usize(3);
    let mut setup = String::from(": op s\" l.fth\" 2dup r/o open-file drop open-source ; variable src");
    setup += &" op drop".repeat(others);
    setup += " op src !";
    let r = vm.eval(&setup);
    ensure!(r == Ok(()) && vm.stack().is_empty(), "open", "{r:?} {:?}", vm.stack());
    vm.push(4711);
    for (k, l) in expect.iter().enumerate() {
        // Other sources are independent.
        if others > 0 && src.chance(1, 3) {
            let o = 1 + src.usize(others);
            let r = vm.eval(&format!("{o} load-line 2drop"));
            ensure!(r == Ok(()), "load-line", "{r:?}");
        }
        let r = vm.eval("src @ load-line");
        ensure!(r == Ok(()), "load-line", "line {}: {r:?}", k + 1);
        let s = vm.stack();
        ensure!(s == [4711, l.len() as i64, -1], "load-line", "line {} {l:?}: stack {s:?}", k + 1);
        vm.eval("2drop src @ .source-line src @ .source-path").ok();
        let o = vm.take_output();
        ensure!(o == format!("{l}l.fth"), "line", "line {} is {o:?}, expected {l:?}", k + 1);
    }
    for _ in 0..1 + src.usize(2) {
        let r = vm.eval("src @ load-line");
        ensure!(r == Ok(()) && vm.stack() == [4711, 0, 0], "end", "at the end: {r:?} {:?}", vm.stack());
        vm.eval("2drop").ok();
    }
    let r = vm.eval("src @ close-source");
    ensure!(r == Ok(()) && vm.stack() == [4711], "close", "{r:?}");
    let r = vm.eval("src @ load-line");
    ensure!(r.is_err(), "closed", "a closed source can be read");
    vm.host_reset();
    let r = vm.eval("src @ close-source");
    ensure!(r.is_err(), "closed", "a closed source can be closed again");
    vm.host_reset();
    if expect.len() >= 3 {
        ctx.nontrivial();
    }
    Ok(())
}

fn missing(src: &mut Src, ctx: &mut Ctx) -> R {
    std::env::set_current_dir(ctx.scratch().clone()).ok();
    std::fs::write("there.fth", "5 va +!\n").unwrap();
    let mut vm = Vm::new();
    setup(&mut vm, 1);
    let forth = src.chance(1, 2);
    let mut v = 0;
    for _ in 0..1 + src.usize(5) {
        let ok = src.chance(1, 3);
        let line = if ok {
            "include there.fth 1 va +!".to_string()
        } else {
            let name = match src.usize(4) {
                0 => "none.fth".to_string(),
                1 => "no/such/dir/f.fth".to_string(),
                2 => "é".repeat(1 + src.usize(100)),
                _ => "there.fth2".to_string(),
            };
            let w = src.usize(3);
            match w {
                0 => format!("include {name} 1 va +!"),
                1 => format!("1 2 3 include {name} 1 va +!"),
                _ => {
                    std::fs::write("outer.fth", format!("2 va +!\ninclude {name} 100 va +!\n200 va +!\n")).unwrap();
                    "include outer.fth 400 va +!".to_string()
                }
            }
        };
        note!(ctx, "{line}");
        let names = vm.xt("va");
        let here = vm.here();
        let r = if forth { vm.eval_forth(&line) } else { vm.eval(&line) };
        if ok {
            ensure!(r == Ok(()), "include", "{r:?}");
            v += 6;
        } else {
            ensure!(r.is_err(), "missing", "a missing file is included");
            ensure!(vm.stack().is_empty(), "stack", "stack {:?}", vm.stack());
            vm.host_reset();
            if line.contains("outer") {
                v += 2;
            }
            ctx.nontrivial();
        }
        let _ = capture::take();
        let r = vm.eval("va @ source-id depth");
        ensure!(r == Ok(()) && vm.stack() == [v, 0, 2], "after", "{r:?} {:?}, expected {v} 0 2", vm.stack());
        vm.clear();
        ensure!(vm.here() == here && vm.xt("va") == names, "here", "the data space changed");
    }
    Ok(())
}
