//! C12: text fuzzing. Any text: no crash, errors are exception codes, and the machine works after a reset.
use crate::engine::*;
use crate::vm::{Vm, SESSION};

pub fn property() -> Property {
    Property {
        id: "C12",
        rule: "Text given line by line to the interpreter: soups of all words of the dictionary, numbers and fragments; programs mutated by deleting, repeating, swapping and splicing characters, tokens and lines; random Unicode text; every word on small stacks of extreme values, interpreted, compiled, through EXECUTE and at the end of the input; the same soups typed in the read-eval loop and loaded from files. After each failing line the host resets. Checked: no panic, abort or fault in a build with overflow checks and debug assertions and guard pages around the data space; afterwards words compiled before and text evaluated then give the right results. Words which would overwrite code or headers, exhaust memory or print without bound are replaced by words which do the same within a buffer. Non-trivial: at least one line failed and at least one did not, or (family words) the word was executed.",
        families: vec![
            Family { name: "soup", quick: 45_000, thorough: 1_200_000, run: soup },
            Family { name: "mutate", quick: 45_000, thorough: 1_200_000, run: mutate },
            Family { name: "unicode", quick: 15_000, thorough: 300_000, run: unicode },
            Family { name: "words", quick: 50_000, thorough: 800_000, run: words },
            Family { name: "session", quick: 12_000, thorough: 400_000, run: session },
            Family { name: "tasks", quick: 5_000, thorough: 100_000, run: tasks },
        ],
        probes: vec![
            Probe { sig: "data space exhausted", what: "a program that fills the data space panics the host", run: full },
            Probe { sig: "run-time word executed by hand", what: "executing the run-time words of compiled code (lit branch 0branch ...) while interpreting reads memory at address 0 and faults the host", run: internals },
        ],
        assumptions: vec![
            "programs do not store into compiled code or headers, and do not execute the run-time words of compiled code by hand",
            "lines are at most a few thousand characters long",
        ],
    }
}

/// Dictionary exhaustion: runs in a child of its own.
fn full(_ctx: &mut Ctx) -> R {
    let s = in_child(|| {
        let mut vm = Vm::new();
        vm.steps = u64::MAX;
        let _ = vm.eval(": fill-up 100000 0 do i , loop ; fill-up");
    });
    if s {
        return fail("data space exhausted", "`: fill-up 100000 0 do i , loop ; fill-up` ends the host process".to_string());
    }
    Ok(())
}

fn internals(_ctx: &mut Ctx) -> R {
    let s = in_child(|| {
        let mut vm = Vm::new();
        let _ = vm.eval("' branch execute");
    });
    if s {
        return fail("run-time word executed by hand", "`' branch execute` ends the host process".to_string());
    }
    Ok(())
}

/// Does the process end abnormally?
fn in_child(f: impl FnOnce()) -> bool {
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            libc::signal(libc::SIGSEGV, libc::SIG_DFL);
            libc::signal(libc::SIGBUS, libc::SIG_DFL);
            libc::signal(libc::SIGABRT, libc::SIG_DFL);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            libc::_exit(if r.is_ok() { 0 } else { 1 });
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        st != 0
    }
}

/// Words which overwrite code, exhaust memory, print without bound or touch the file system.
const HAZARDS: &[&str] = &[
    "!", "c!", "f!", "2!", "+!", "on", "off", "move", "fill", "append", "allot", "!token", "execute", "defer!", ".r", "f.r", "h.r",
    "spaces", "lit", "flit", "_s\"", "_s\\", "branch", "0branch", "_do", "_qdo", "_loop", "_+loop", "compile,", ",", "c,", "2,", "f,",
    "align", "falign", "create-file", "delete-file", "write-file", "read-file", "resize-file", "open-file", "reposition-file",
    "handler!", "_does", "_postpone", "(xtime)", "xtime", "create", "word", "parse", "_skip", "dump", "_dump", "_type", "get", "release", "ms",
    "activate", "pause", "stop", "nod", "halt", "suspend", "resume", "bye", "receive", "-work", "sane", "release", "included", "type",
    "load-source-file", "load-line", "\\\\", "open-source", "save-source", "restore-source", "save-input", "restore-input", "_save-input", "_restore-input",
    "marker", "label", "goto", "call", "0labels", "variable", "fvariable", "2variable", "+field", "defer", "cold", "quit", "(abort)", "s\\", ".\\", "source-id!",
    "evaluate-input", "interpret-token", "compile-token", "'", "[']", "r>", "r@", ">r", "2>r", "2r>", "2r@", "i", "j", "unloop", "noop", "flush-to-err",
];

const PRELUDE: &[&str] = &[
    "create lo 2048 allot create buf 2048 allot create hi 2048 allot",
    ": put buf ! ; : cput buf c! ; : fput buf f! ; : put2 buf 2! ; : add buf +! ; : von buf on ; : voff buf off ;",
    ": cpy buf buf 100 + 50 move ; : cpz buf 3 + buf 50 move ; : flb >r buf 100 r> fill ; : app buf 20 buf 512 + append ;",
    ": al16 16 allot ; : r5 5 .r ; : f5 12 3 f.r ; : h5 5 h.r ; : sp3 3 spaces ; : rn -20 .r ;",
    ": setbase base ! ; : setbig -1 base ! ; : badst 5 -8 ! ; : badat 7 @ ; : badfill 0 8 0 fill ; : badtype -5 9 type ; : badx -9 execute ;",
    ": mk create , does> @ ; : mkc create 1 c, 2 , align does> c@ ; : mkf create falign f, does> faligned f@ ;",
    ": wbl bl word ; : w41 41 word ; : p34 34 parse ; : p41 41 parse ; : typ buf 20 type ; : tsrc source type ; : dmp buf 20 dump ;",
    ": crf s\" f1\" r/w create-file ; : opf s\" f1\" r/w open-file ; : opr s\" nofile\" r/o open-file ; : dlf s\" f1\" delete-file ; : opb s\" f1\" 77 open-file ;",
    ": wrf buf 10 rot write-file ; : rdf buf 40 rot read-file ; : rsf >r 33 r> resize-file ; : rpf >r 5 r> reposition-file ; : rsn >r -5 r> resize-file ;",
    ": inc1 s\" s1.fth\" included ; : inc2 s\" s2.fth\" included ; : incn s\" none.fth\" included ;",
    ": ops >r s\" f1\" r> open-source ; : opsf opf drop ops ; : ldl load-line ;",
    ": ld source-id load-line ; : ldb 0 load-line ; : ld9 9 load-line ; : sid0 0 source-id! ; : sidb 7 source-id! ; : sidn -7 source-id! ;",
    ": xt-dup ['] dup execute ; : xt-xdup ['] dup xtime ; : ev evaluate-input ; : pw parse-word interpret-token ; : pc parse-word compile-token ;",
    ": cp swap drop ; : rr >r 5 r> ; : rl 2>r 2r@ 2r> ; : ti 3 0 do i loop ; : tij 3 0 do 2 0 do i j loop loop ;",
    ": srci source-idx 3 + source-idx! ; : srcb 100000 source-idx! ; : srcn -1 source-idx! ; : src1 source-idx 1+ source-idx! ;",
    "defer dd : setd ['] dup ['] dd defer! ; : setn ['] noop ['] dd defer! ; : tk ' drop ; : tkn ' >name ; : tkb ' >body drop ; : tkw ' .word ;",
    "variable va fvariable fa 2variable da : sv va ! ; : gv va @ ;",
    ": sane 0 10 0 do i + loop 7 * dup 300 > if 30 - else drop 5 then ;",
    // IMMEDIATE and COMPILE-ONLY typed first apply to this one.
    ": dummy ;",
];

const EXTRA: &[&str] = &[
    "put", "cput", "fput", "put2", "add", "von", "voff", "cpy", "cpz", "flb", "app", "al16", "r5", "f5", "h5", "sp3", "rn", "setbase", "setbig",
    "badst", "badat", "badfill", "badtype", "badx", "5 mk w5", "mk", "mkc w6", "1.5e mkf w7", "wbl", "w41", "0 .source-path", "1 .source-path", "-1 .source-line", "0 .source-line", "source-id .source-path", "source-id .source-line", "1 close-source", "0 close-source", "source-id close-source", "p34", "p41", "typ", "tsrc", "dmp", "crf", "opf",
    "opr", "dlf", "opb", "wrf", "rdf", "rsf", "rpf", "rsn", "inc1", "inc2", "incn", "0 ops", "1 ops", "2 ops", "3 ops", "ops", "opsf", "1 ldl", "2 ldl", "ldl", "ld", "ldb", "ld9", "sid0", "sidb", "sidn", "xt-dup", "xt-xdup", "ev", "pw", "pc",
    "cp", "rr", "rl", "ti", "tij", "srci", "srcb", "srcn", "src1", "dd", "setd", "setn", "tk dup", "tkn dup", "tkb dup", "tkw dup", "' w0 1+ .word", "' w1 1+ >body", "' dummy 2 + >name", "tk", "tkw", "sv", "gv",
    "buf", "buf 7 +", "\" abc\"", "s\" abc\"", ".\" xyz\"", ".( hello)", "( comment )", "\\ rest", "[char] *", "char x", "' dup drop", "['] dup drop", "1e", "2.5e3", "1e400", "-3e-400", "$ff", "%101", "#12", "'a'",
    "1", "2", "0", "-1", "3", "65", "9999999999999999999999", "-9223372036854775808", ": w0", ": w1", ": w2", ";", ";", "; immediate", "; compile-only", ":", "constant w3", "constant", "2constant w4", "fconstant w8", "w0", "w1", "w2", "w3", "w4", "w5",
    "w6", "w7", "w8", "[", "]", "literal", "2literal", "fliteral", "postpone dup", "postpone if", "postpone w0", "postpone", "recurse", "exit", "if", "else", "then", "begin", "while", "repeat", "until", "again", "do",
    "?do", "loop", "+loop", "leave", "case", "of", "endof", "endcase", "3 0 do", "1 if", "0 if", "begin 0 while", "1 until", "does>", "immediate", "abort", "reset", "0stacks", "char", "[char]", "s\"", ".\"", ".(", "(", "\\", "zork", "é", "日本", "'é'", "''", "'''", "1.", "e", "-", "+-1", "$", "%", "#", "words", ".memory", "include s1.fth", "include none", "include", "compiling?", "decimal", "hex",
];

/// Replace the hazards in a text; the layout stays.
fn sanitize(text: &str) -> String {
    let mut out = String::new();
    let mut tok = String::new();
    let mut prev = String::new();
    let sep = |c: char| c.is_whitespace() || c == '"' || c == ')' || c == '(' || c == '\\' || (c as u32) <= 32;
    let done = |tok: &mut String, prev: &mut String, out: &mut String| {
        if tok.is_empty() {
            return;
        }
        let t = tok.to_ascii_lowercase();
        let harmless = |p: &str| p == "char" || p == "[char]";
        let raw_ok = match t.as_str() {
            // Ticks are fine before a name: nothing executes the token but wrappers.
            "'" | "[']" | "noop" | "word" | "create" | "variable" => t == "'" || t == "[']" || t == "noop",
            _ => false,
        };
        let bad = HAZARDS.iter().any(|h| t == *h || (t.len() > h.len() && h.len() >= 2 && t.ends_with(h)) || (h.len() == 1 && !h.starts_with(|c: char| c.is_alphanumeric()) && *h != "'" && t.ends_with(h)));
        let huge = t.len() > 400;
        if (prev == "include" || prev == "inc1") && tok.contains('/') {
            out.push_str("none");
        } else if huge || (bad && !raw_ok && !harmless(prev.as_str())) {
            out.push_str("w1");
        } else {
            out.push_str(tok);
        }
        *prev = t;
        tok.clear();
    };
    for c in text.chars() {
        if sep(c) {
            // The words S" and ." end in a separator.
            done(&mut tok, &mut prev, &mut out);
            out.push(c);
        } else {
            tok.push(c);
        }
    }
    done(&mut tok, &mut prev, &mut out);
    out
}

const BASES: &[&str] = &[
    ": w0 10 0 do i dup * . loop ; w0",
    ": w1 dup 0= if drop 1 exit then dup 1- recurse * ; 5 w1 .",
    ": w2 begin dup while dup . 1- repeat drop ; 4 w2",
    ": w3 case 1 of 10 endof 2 of 20 endof 30 swap endcase ; 2 w3 .",
    ": w4 5 0 do i 3 = if leave then i . loop ; w4",
    ": w5 postpone dup postpone + ; immediate : w6 7 w5 . ; w6",
    "5 mk w7 w7 . 7 constant w8 w8 w8 + .",
    "1.5e 2e f+ f. 3 s>f fsqrt f. 1e 0e f/ f.",
    "hex ff . decimal 255 h. %101 . $7f . 'a' emit",
    ".( hello world) ( a comment) char x emit",
    ": w9 .\" text \" s\" more\" drop c@ emit ; w9",
    "1 2 3 rot swap over nip tuck 2dup 2drop .s 0stacks",
    "buf 10 + @ put gv sv buf c@ .",
    ": wa [ 3 4 * ] literal [char] * emit ; wa",
    ": wb 2 0 do 3 0 ?do i j + . loop loop ; wb words",
    "crf drop dup wrf . dup rdf . . close-file .",
    "include s1.fth 5 . inc2",
    "1 0 / 5 .",
    ": wc if 1 else 2 then [ decimal ] ; 1 wc . 0 wc . ' wc .word",
    ": wd 10 0 do i 2 +loop ; wd depth . 0stacks",
];

const CHARS: &[&str] = &[
    " ", " ", " ", "\t", "\n", "\r", "\"", "(", ")", "\\", ":", ";", "'", "[", "]", "0", "9", "a", "Z", "é", "日", "🦀", "\u{0}", "\u{7f}", "\u{a0}", "\u{3000}", "\u{feff}", "\u{301}", "\u{85}", "-", "+", ".", "e", "$", "%", "#", "/", "*", "@", "<", ">", "=", "?", ",",
];

struct Fix {
    sane: usize,
    decimal: usize,
    names: Vec<(&'static str, Option<usize>)>,
    vocab: Vec<String>,
}

fn machine(forth_files: Option<(&str, &str)>, ctx: &Ctx) -> Vm {
    let dir = ctx.scratch().clone();
    std::env::set_current_dir(&dir).ok();
    // A program that asks for endless memory ends with a failed allocation instead of using up the machine's.
    let l = libc::rlimit { rlim_cur: 2 << 30, rlim_max: libc::RLIM_INFINITY };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
    if let Some((a, b)) = forth_files {
        std::fs::write("s1.fth", a).unwrap();
        std::fs::write("s2.fth", b).unwrap();
    }
    let mut vm = Vm::new();
    for l in PRELUDE {
        if let Err(e) = vm.eval(l) {
            std::panic::panic_any(format!("prelude {l}: {e}"));
        }
    }
    vm
}

const CORE_NAMES: &[&str] = &[":", ";", "+", "dup", "if", "else", "then", "do", "loop", "i", "-", "zork"];

fn fix(vm: &mut Vm) -> Fix {
    let sane = vm.xt("sane").unwrap();
    let decimal = vm.xt("decimal").unwrap();
    let names = CORE_NAMES.iter().map(|&n| (n, vm.xt(n))).collect();
    Fix { sane, decimal, names, vocab: vec![] }
}

fn vocab(vm: &mut Vm) -> Vec<String> {
    let _ = vm.eval("words");
    let t = vm.take_output();
    t.split(' ').filter(|w| !w.is_empty() && !HAZARDS.contains(w)).map(|w| w.to_string()).collect()
}

fn run_xt(vm: &mut Vm, xt: usize) {
    use rtforth::core::Core;
    vm.steps = 100_000;
    vm.set_error(None);
    vm.state().instruction_pointer = 0;
    vm.execute_word(xt);
    vm.run();
}

/// The machine works after a reset by the host.
fn sanity(vm: &mut Vm, f: &Fix) -> R {
    vm.set_bye_handler();
    vm.host_reset();
    vm.take_output();
    run_xt(vm, f.decimal);
    run_xt(vm, f.sane);
    ensure!(vm.err().is_none() && vm.stack() == [285], "sanity", "a word compiled before leaves {:?} (error {:?})", vm.stack(), vm.err());
    vm.host_reset();
    let fresh = f.names.iter().all(|(n, x)| vm.xt(n) == *x);
    if fresh && ["zzq9", "7654321", "10004", "10000", "10001", "10002"].iter().all(|n| vm.xt(n).is_none()) {
        let r = vm.eval(": zzq9 7654321 10004 10000 do i 10000 - + loop dup if 10001 else 10002 then ; zzq9");
        ensure!(r == Ok(()) && vm.stack() == [7654327, 10001], "sanity", "a correct program gives {r:?} and leaves {:?}", vm.stack());
        ensure!(vm.fstack().is_empty(), "sanity", "a correct program leaves floats {:?}", vm.fstack());
        let out = vm.take_output();
        ensure!(out.is_empty(), "sanity", "a correct program prints {out:?}");
        vm.host_reset();
        let r = vm.eval("zork 6");
        ensure!(r == Err(-13) && vm.stack().is_empty(), "sanity", "an undefined word gives {r:?}, stack {:?}", vm.stack());
        vm.host_reset();
    }
    Ok(())
}

/// Evaluate a line: an endless program is not a failure.
fn feed(vm: &mut Vm, line: &str, forth: bool) -> Option<Result<(), i64>> {
    vm.steps = 30_000;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if forth { vm.eval_forth(line) } else { vm.eval(line) }));
    match r {
        Ok(r) => Some(r),
        Err(e) => {
            if e.is::<crate::vm::OutOfSteps>() {
                None
            } else {
                std::panic::resume_unwind(e)
            }
        }
    }
}

fn run_text(ctx: &mut Ctx, vm: &mut Vm, f: &Fix, lines: &[String], forth: bool) -> R {
    let (mut ok, mut bad) = (0, 0);
    for l in lines {
        note!(ctx, "{l:?}{}", if forth { "   (evaluate-input)" } else { "" });
        match feed(vm, l, forth) {
            None => {
                // The program runs for ever: nothing more to be seen.
                ctx.label("does not end");
                return Ok(());
            }
            Some(Ok(())) => ok += 1,
            Some(Err(e)) => {
                ensure!((-99..=-1).contains(&e), "code", "{l:?}: exception code {e}");
                ensure!(vm.err() == Some(e), "code", "{l:?}: error {:?} and {e}", vm.err());
                bad += 1;
                vm.host_reset();
                vm.set_bye_handler();
            }
        }
        ensure!(vm.output_buffer_present(), "output buffer", "{l:?}: the output buffer is gone");
        if vm.limit() - vm.here() < 20_000 {
            ctx.label("memory full");
            break;
        }
    }
    if ok > 0 && bad > 0 {
        ctx.nontrivial();
    }
    sanity(vm, f)
}

fn token(src: &mut Src, f: &Fix) -> String {
    match src.weighted(&[5, 4, 1, 1]) {
        0 => EXTRA[src.usize(EXTRA.len())].to_string(),
        1 => f.vocab[src.usize(f.vocab.len())].clone(),
        2 => format!("{}", src.small()),
        _ => {
            let n = 1 + src.usize(4);
            (0..n).map(|_| *src.pick(CHARS)).filter(|c| *c != "\n" && *c != "\r").collect()
        }
    }
}

fn soup_line(src: &mut Src, f: &Fix) -> String {
    let n = 1 + src.usize(if src.scale > 1 { 40 } else { 18 });
    let mut l = String::new();
    if src.chance(1, 3) {
        // A definition, so that the soup is compiled and then executed.
        l += *src.pick(&[": w0 ", ": w1 ", ": w2 "]);
    }
    for k in 0..n {
        if k > 0 {
            l += if src.chance(1, 30) { "" } else if src.chance(1, 20) { "\t" } else { " " };
        }
        l += &token(src, f);
    }
    if src.chance(1, 4) {
        l += " ; w0";
    }
    sanitize(&l)
}

fn soup(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = machine(None, ctx);
    let mut f = fix(&mut vm);
    f.vocab = vocab(&mut vm);
    if src.chance(1, 4) {
        let (a, b): (Vec<String>, Vec<String>) = ((0..src.usize(4)).map(|_| soup_line(src, &f)).collect(), (0..src.usize(3)).map(|_| soup_line(src, &f)).collect());
        // Files must not include each other for ever.
        std::fs::write("s1.fth", a.join("\n").replace("inc1", "").replace("include", "")).unwrap();
        std::fs::write("s2.fth", b.join("\r\n").replace("inc2", "").replace("inc1", "").replace("include", "")).unwrap();
        note!(ctx, "s1.fth: {a:?}");
        note!(ctx, "s2.fth: {b:?}");
    } else {
        std::fs::write("s1.fth", "1 2 + .\n: w1 3 ;\n").unwrap();
        std::fs::write("s2.fth", "5 .").unwrap();
    }
    let _ = std::fs::remove_file("f1");
    let n = 1 + src.usize(6);
    let forth = src.chance(1, 2);
    let lines: Vec<String> = (0..n).map(|_| soup_line(src, &f)).collect();
    run_text(ctx, &mut vm, &f, &lines, forth)
}

fn mutate_text(src: &mut Src, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    let mut toks: Vec<String> = vec![];
    if src.chance(1, 2) {
        // Tokens
        toks = t.split(' ').map(|x| x.to_string()).collect();
        for _ in 0..1 + src.usize(3) {
            let n = toks.len();
            if n == 0 {
                break;
            }
            let i = src.usize(n);
            match src.usize(4) {
                0 => {
                    toks.remove(i);
                }
                1 => {
                    let x = toks[src.usize(n)].clone();
                    toks.insert(i, x);
                }
                2 => {
                    let j = src.usize(n);
                    toks.swap(i, j);
                }
                _ => toks[i] = EXTRA[src.usize(EXTRA.len())].to_string(),
            }
        }
        c = toks.join(" ").chars().collect();
    }
    if toks.is_empty() || src.chance(1, 3) {
        for _ in 0..1 + src.usize(4) {
            let n = c.len();
            if n == 0 {
                break;
            }
            let i = src.usize(n);
            match src.usize(5) {
                0 => {
                    c.remove(i);
                }
                1 => {
                    let x = c[i];
                    c.insert(i, x);
                }
                2 => {
                    for x in src.pick(CHARS).chars() {
                        c.insert(i, x);
                    }
                }
                3 => {
                    let j = src.usize(n);
                    c.swap(i, j);
                }
                _ => c.truncate(i),
            }
        }
    }
    c.into_iter().collect()
}

fn mutate(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = machine(Some(("1 2 + .\n: w1 3 ;\n", "5 .")), ctx);
    let f = fix(&mut vm);
    let n = 1 + src.usize(6);
    let mut lines = vec![];
    for _ in 0..n {
        let mut t = BASES[src.usize(BASES.len())].to_string();
        if src.chance(1, 4) {
            t = format!("{t} {}", BASES[src.usize(BASES.len())]);
        }
        if src.chance(4, 5) {
            t = mutate_text(src, &t);
        }
        lines.push(sanitize(&t));
    }
    let forth = src.chance(1, 2);
    run_text(ctx, &mut vm, &f, &lines, forth)
}

fn unicode(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = machine(Some(("é 1\n", "日本\n")), ctx);
    let f = fix(&mut vm);
    let n = 1 + src.usize(5);
    let mut lines = vec![];
    for _ in 0..n {
        let mut l = String::new();
        if src.chance(1, 3) {
            l += *src.pick(&[".( ", "( ", "char ", ": ", ": w0 [char] ", ": w0 .\" ", ": w0 s\" ", "wbl ", "p34 ", "constant ", "mk ", "' ", "\\ ", "include ", ": w1 postpone ", "'", "$", "w41 "]);
        }
        let k = src.usize(if src.scale > 1 { 400 } else { 60 });
        for _ in 0..k {
            match src.weighted(&[5, 2, 1, 1]) {
                0 => l += *src.pick(CHARS),
                1 => l.push(char::from_u32(src.range(0, 0x24f) as u32).unwrap_or('x')),
                2 => l.push(char::from_u32(src.below(0x110000) as u32).unwrap_or('\u{fffd}')),
                _ => l += EXTRA[src.usize(EXTRA.len())],
            }
        }
        lines.push(sanitize(&l));
    }
    let forth = src.chance(1, 2);
    run_text(ctx, &mut vm, &f, &lines, forth)
}

/// Words left out of the family `words`, with their reason in the assumptions.
const NOT_ALONE: &[&str] = &[
    "lit", "flit", "_s\"", "_s\\", "branch", "0branch", "_do", "_qdo", "_loop", "_+loop", "handler!", "compile,", "pause", "stop", "nod", "_does", "-work", "sane", "delete-file", "create-file", "receive",
];
/// Words which are not given large numbers.
const SMALL: &[&str] = &[".r", "h.r", "f.r", "spaces", "allot", "execute", "(xtime)", "_postpone", "xtime", "interpret-token", "compile-token", "ms", "activate", "halt", "resize-file", "resume", "suspend", "f5"];

/// Every word on extreme stacks.
fn words(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = machine(Some(("1 2 + .\n: w1 3 ;\n", "5 .")), ctx);
    let f = fix(&mut vm);
    let _ = vm.eval("words");
    let all: Vec<String> = vm.take_output().split(' ').filter(|w| !w.is_empty() && !NOT_ALONE.contains(w)).map(|w| w.to_string()).collect();
    let w = all[src.usize(all.len())].clone();
    let n = src.usize(5);
    let small = SMALL.contains(&w.as_str());
    let mut items: Vec<i64> = vec![];
    for _ in 0..n {
        let words = rtforth::core::Core::wordlist(&vm).len() as i64;
        let limits = [words - 1, words, words + 1, 0, 1, 2, 999, 1000, 1001, 5, 6, 7, -1, i64::MIN, 255, 256, 257, 63, 64, 65];
        let v = if !small && src.chance(1, 3) {
            // Ends of the tables of the machine; the line may define up to two words.
            if src.chance(1, 2) { words + src.range(0, 2) } else { *src.pick(&limits) }
        } else if small {
            match w.as_str() {
                "execute" | "(xtime)" | "_postpone" | "xtime" if src.chance(1, 2) => words + src.range(0, 2),
                "execute" | "(xtime)" | "_postpone" | "xtime" | "interpret-token" | "compile-token" => *src.pick(&[i64::MAX, i64::MIN, -1, 100_000, 1 << 32, 5000]),
                "allot" => *src.pick(&[0, 1, 7, 8, 100, i64::MAX, i64::MIN, 1 << 40, 70_000, -(1 << 40)]),
                "ms" | "activate" | "halt" | "resume" | "suspend" => *src.pick(&[-1, 0, 6, i64::MIN, i64::MAX, 77]),
                _ => *src.pick(&[0, -1, 3, 17, 20, 300, i64::MIN, -5000]),
            }
        } else {
            src.cell()
        };
        // No address of the data space.
        let v = if (vm.start() as i64 - 4096..vm.limit() as i64 + 4096).contains(&v) { 0 } else { v };
        items.push(v);
    }
    if ["fill", "_skip", "parse", "word"].contains(&w.as_str()) {
        for v in items.iter_mut() {
            *v = (*v).clamp(-300, 100_000);
        }
    }
    let floats: Vec<f64> = (0..src.usize(4)).map(|_| src.float()).collect();
    for v in &items {
        vm.push(*v);
    }
    for v in &floats {
        vm.fpush(*v);
    }
    let tail = *src.pick(&["", " ", " dup", " abc", " é", " 5 .", " \"", " abc\" 5 .", " ) ;", " w0 w1"]);
    let tail = if w == "open-file" || w == "include" { " none" } else { tail };
    let line = match src.usize(6) {
        0 | 1 => format!("{w}{tail}"),
        2 => format!(": t {w}{tail} ; t"),
        3 => format!("' {w} xexe{tail}"),
        4 => format!(": t {w} ;{} t", if tail.starts_with(' ') { tail } else { "" }),
        _ => format!(": t postpone {w} ; immediate : u t{tail} ; u"),
    };
    // Execute without the stack effect of a literal token.
    let line = line.replace("xexe", "execute");
    let forth = src.chance(1, 3);
    note!(ctx, "stack {items:?} floats {floats:?}: {line:?}{}", if forth { "   (evaluate-input)" } else { "" });
    let r = feed(&mut vm, &line, forth);
    if r.is_none() {
        ctx.label("does not end");
        return Ok(());
    }
    if let Some(Err(e)) = r {
        ensure!((-99..=-1).contains(&e), "code", "exception code {e}");
    }
    ctx.nontrivial();
    ensure!(vm.output_buffer_present(), "output buffer", "the output buffer is gone");
    if vm.limit() - vm.here() < 4_000 || w == "marker" || line.contains("marker") {
        return Ok(());
    }
    // A second error must be handled too.
    vm.host_reset();
    vm.set_bye_handler();
    let _ = feed(&mut vm, "zork", forth);
    sanity(&mut vm, &f)
}

/// The read-eval loop survives.
fn session(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut probe = machine(Some(("1 2 + .\n: w1 3 ;\n", "5 .")), ctx);
    let mut f = fix(&mut probe);
    f.vocab = vocab(&mut probe);
    drop(probe);
    let _ = std::fs::remove_file("f1");
    let mut lines: Vec<String> = PRELUDE.iter().map(|s| s.to_string()).collect();
    let n = 1 + src.usize(8);
    for _ in 0..n {
        let l = match src.usize(4) {
            0 => {
                let t = BASES[src.usize(BASES.len())].to_string();
                sanitize(&mutate_text(src, &t))
            }
            _ => soup_line(src, &f),
        };
        // RESET in the read-eval loop forgets the loop, too.
        let l = l.replace(['\n', '\r'], " ");
        let mut l = l;
        while let Some(k) = l.to_ascii_lowercase().find("reset") {
            l.replace_range(k..k + 5, "abort");
        }
        lines.push(l);
    }
    for l in &lines[PRELUDE.len()..] {
        note!(ctx, "{l:?}");
    }
    lines.push("zork-zork".into());
    lines.push("zork-zork".into());
    lines.push("sane".into());
    let mut vm = Vm::repl(&lines);
    vm.steps = 200_000;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| vm.run_repl()));
    if let Err(e) = r {
        if e.is::<crate::vm::OutOfSteps>() {
            ctx.label("does not end");
            return Ok(());
        }
        std::panic::resume_unwind(e);
    }
    let t = SESSION.with(|s| s.borrow().clone());
    if vm.limit() - vm.here() < 20_000 {
        ctx.label("memory full");
        return Ok(());
    }
    if t.len() < lines.len() + 1 {
        // A definition left inside a loop, or through DOES>, returns to a loop index: 0 ends the loop legitimately.
        let text = lines[PRELUDE.len()..].join(" ").to_ascii_lowercase();
        if ["do", "exit", "does>", "rr", "rl", "goto", "call", "unloop"].iter().any(|w| text.contains(w)) {
            ctx.label("session ended");
            return Ok(());
        }
    }
    ensure!(t.len() == lines.len() + 1, "ended", "the session ended after {} of {} lines", t.len() - 1, lines.len());
    ensure!(t[lines.len()].ends_with(" ok\r\n"), "sanity", "a word defined at the start prints {:?}", t[lines.len()]);
    ensure!(vm.stack() == [285], "sanity", "the session ends with the stack {:?}", vm.stack());
    let bad = t[PRELUDE.len() + 1..].iter().filter(|l| l.contains("backtrace")).count();
    if bad > 2 {
        ctx.nontrivial();
    }
    Ok(())
}

/// Task words with any arguments, at any place.
fn tasks(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut lines: Vec<String> = PRELUDE.iter().map(|s| s.to_string()).collect();
    lines.push(": bg1 2 activate begin 1 add pause again ; : bg2 3 activate 5 0 do i drop pause loop stop ;".into());
    lines.push(": ps pause ; : act activate ; : me1 me suspend me resume ; : gt buf 8 + get ; : rel buf 8 + release ; : ht halt ;".into());
    lines.push(": bge 4 activate 1 0 / pause begin pause again ; : bgz 5 activate begin pause 0 drop again ;".into());
    let from = lines.len();
    for _ in 0..2 + src.usize(10) {
        let mut l = String::new();
        for _ in 0..1 + src.usize(8) {
            l += *src.pick(&[
                "bg1", "bg2", "bgz", "ps", "ps", "9 act", "0 act", "-1 act", "-9223372036854775808 act", "6 act", "2 suspend", "2 resume", "3 suspend", "77 suspend", "0 resume", "-1 resume", "me .", "gt", "rel", "2 ht", "3 ht",
                "0 ms", "5 .", "zork", "1 0 /", ": w0 ps 5 ; w0", "3 0", "4 ht", "6 ht", "abort", "nod-", "depth .", "drop",
            ]);
            l.push(' ');
        }
        lines.push(l);
    }
    for l in &lines[from..] {
        note!(ctx, "{l:?}");
    }
    lines.push("zork-zork".into());
    lines.push("sane".into());
    let mut vm = Vm::repl(&lines);
    vm.steps = 100_000;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| vm.run_repl()));
    if let Err(e) = r {
        if e.is::<crate::vm::OutOfSteps>() {
            ctx.label("does not end");
            return Ok(());
        }
        std::panic::resume_unwind(e);
    }
    let t = SESSION.with(|s| s.borrow().clone());
    if t.len() == lines.len() + 1 {
        ensure!(t[lines.len()].ends_with(" ok\r\n"), "sanity", "a word defined at the start prints {:?}", t[lines.len()]);
        ctx.nontrivial();
    } else {
        ctx.label("session ended");
    }
    Ok(())
}
