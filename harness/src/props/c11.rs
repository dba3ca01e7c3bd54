//! C11: interactive sessions with failing lines, compared with the same sessions without them.
use crate::engine::*;
use crate::vm::{Vm, SESSION};

pub fn property() -> Property {
    Property {
        id: "C11",
        rule: "A random session of the rtf read-eval loop (definitions over one or several lines, redefinitions, variables, deferred words, markers, macros, labels, loops, floats, number bases, comments, included files, background tasks) with failing groups of lines inserted: every kind of error, at the top level, in a definition being compiled, in executed words nested in calls, loops, EXECUTE, DEFER or immediate words, and in (nested) included files. The report of each failing line is compared with its prediction, and every other line, the final stacks, the data of all words and what every word does with the session in which each failing line is replaced by 0STACKS and the effects completed before the error. Non-trivial: at least two failing lines and six other lines, one of which prints.",
        families: vec![
            Family { name: "session", quick: 70_000, thorough: 900_000, run: session },
            Family { name: "long", quick: 300, thorough: 4_000, run: long },
            Family { name: "descriptors", quick: 24, thorough: 200, run: descriptors },
        ],
        probes: vec![],
        assumptions: vec!["background tasks do not fail", "the failing line does not overwrite the system variables"],
    }
}

struct G {
    /// Words the session may use and what they leave: data items.
    words: Vec<(String, usize)>,
    defer: Option<String>,
    /// word count at the marker
    marker: Option<(String, usize, Option<String>)>,
    depth: usize,
    fdepth: usize,
    serial: usize,
    files: usize,
    bg: bool,
    hex: bool,
    dir: std::path::PathBuf,
    prints: usize,
}

/// Completed effects of a failing line.
struct Done {
    text: String,
    prints: bool,
}

impl G {
    fn new(dir: std::path::PathBuf) -> G {
        G {
        words: vec![],
        defer: None,
        marker: None,
        depth: 0,
        fdepth: 0,
        serial: 0,
        files: 0,
        bg: false,
        hex: false,
        dir,
        prints: 0,
        }
    }
    fn num(&self, src: &mut Src) -> String {
        let v = src.range(0, 9);
        if src.chance(1, 6) {
            format!("-{v}")
        } else {
            format!("{v}")
        }
    }
    fn file(&mut self, text: &str) -> String {
        self.files += 1;
        let p = self.dir.join(format!("i{}.fth", self.files));
        std::fs::write(&p, text).unwrap();
        p.to_str().unwrap().to_string()
    }
    /// Fragment of a body which leaves nothing.
    fn neutral(&mut self, src: &mut Src, inside: bool) -> (String, bool) {
        let k = src.usize(4);
        let n = self.num(src);
        match src.weighted(&[4, 3, 3, 3, 2, if inside { 2 } else { 0 }, if inside { 2 } else { 0 }, 3, 2, 2, 1]) {
            0 => (format!("{n} v{k} +!"), false),
            1 => (format!("{n} v{k} !"), false),
            2 => (format!("v{k} @ ."), true),
            3 => (format!("{n} {} + .", self.num(src)), true),
            4 => (format!("{n}.5e f."), true),
            5 => (format!("{n} 0= if v{k} on else {n} . then"), true),
            6 => (format!("3 0 do i v{k} +! i 1 = if leave then loop"), false),
            7 => {
                if self.words.is_empty() {
                    ("1 .".into(), true)
                } else {
                    let (w, a) = self.words[src.usize(self.words.len())].clone();
                    (format!("{w}{}", " .".repeat(a)), true)
                }
            }
            8 => ("[char] * drop".replace("[char] *", if inside { "[char] *" } else { "char *" }), false),
            9 => {
                if self.bg && !inside {
                    ("pp".into(), true)
                } else {
                    ("5 spaces".into(), true)
                }
            }
            _ => {
                if let Some(d) = self.defer.clone() {
                    (d, true)
                } else {
                    ("cr".into(), true)
                }
            }
        }
    }
    fn name(&mut self, src: &mut Src) -> String {
        format!("w{}", src.usize(6))
    }
    fn set_word(&mut self, n: &str, a: usize) {
        self.words.retain(|w| w.0 != n);
        self.words.push((n.to_string(), a));
    }
    /// Body of a definition and the number of items it leaves.
    fn body(&mut self, src: &mut Src) -> (Vec<String>, usize) {
        let mut b = vec![];
        let n = 1 + src.usize(3);
        for _ in 0..n {
            b.push(self.neutral(src, true).0);
        }
        let a = src.usize(3);
        for _ in 0..a {
            b.push(match src.usize(4) {
                0 => format!("{} >r r@ r> -", self.num(src)),
                1 => format!("[ {} 3 * ] literal", self.num(src)),
                2 => format!("v{} @", src.usize(4)),
                _ => self.num(src),
            });
        }
        if src.chance(1, 5) {
            b.push(format!("{} case 1 of 11 . endof 2 of 22 . endof 33 . endcase", src.range(1, 3)));
        }
        if src.chance(1, 8) {
            b.push("begin v0 @ 1 and while v0 off repeat".into());
        }
        (b, a)
    }
    /// A normal line, or several.
    fn normal(&mut self, src: &mut Src, out: &mut Vec<String>) {
        match src.weighted(&[6, 6, 5, 5, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2]) {
            0 => {
                let mut l = String::new();
                for _ in 0..1 + src.usize(4) {
                    match src.weighted(&[4, 2, 2, 2, 2, 1]) {
                        0 if self.depth < 40 => {
                            l += &self.num(src);
                            self.depth += 1;
                        }
                        1 if self.depth >= 2 => {
                            l += src.pick(&["+", "-", "*", "max", "xor"]);
                            self.depth -= 1;
                        }
                        2 if self.depth >= 1 => {
                            l += ".";
                            self.depth -= 1;
                            self.prints += 1;
                        }
                        3 if self.depth >= 2 => l += src.pick(&["swap", "2dup 2drop", "over drop"]),
                        4 if self.depth >= 1 && self.depth < 40 => {
                            l += "dup";
                            self.depth += 1;
                        }
                        _ => l += "depth drop",
                    }
                    l += " ";
                }
                out.push(l);
            }
            1 => {
                let mut l = vec![];
                for _ in 0..1 + src.usize(3) {
                    l.push(self.neutral(src, false).0);
                }
                self.prints += 1;
                out.push(l.join(" "));
            }
            2 => {
                // One line definition
                let (b, a) = self.body(src);
                let n = self.name(src);
                out.push(format!(": {n} {} ;", b.join(" ")));
                self.set_word(&n, a);
            }
            3 => {
                // Definition over several lines
                let (b, a) = self.body(src);
                let n = self.name(src);
                out.push(format!(": {n}"));
                for x in b {
                    out.push(x);
                    if src.chance(1, 6) {
                        out.push("\\ comment".into());
                    }
                }
                out.push(";".into());
                self.set_word(&n, a);
            }
            4 => {
                self.prints += 1;
                out.push(src.pick(&[".s depth . ", ".s depth . ", ".backtrace", ".backtrace .s", "error . .error compiling? .", "source-id . source-idx . .input", "load-line# @ 0 * . .xtime"]).to_string());
            }
            5 => {
                if self.fdepth < 20 {
                    self.fdepth += 1;
                    out.push(format!("{}.25e", self.num(src)));
                } else {
                    self.fdepth -= 2;
                    out.push("f+ f.".into());
                }
            }
            6 => {
                if self.defer.is_none() {
                    let d = format!("d{}", src.usize(3));
                    out.push(format!("defer {d}"));
                    self.defer = Some(d);
                }
                let d = self.defer.clone().unwrap();
                let n = format!("t{}", self.serial);
                self.serial += 1;
                // Its body must not lead back to the deferred word.
                let words = std::mem::take(&mut self.words);
                self.defer = None;
                let b = self.neutral(src, true).0;
                self.words = words;
                self.defer = Some(d.clone());
                out.push(format!(": {n} {b} ; ' {n} ' {d} defer!"));
            }
            7 => match self.marker.take() {
                None => {
                    let m = format!("m{}", src.usize(2));
                    out.push(format!("marker {m}"));
                    self.marker = Some((m, self.words.len(), self.defer.clone()));
                    // Words redefined after the marker get their former meaning back: forget them all.
                    self.words.clear();
                    self.defer = None;
                }
                Some((m, _, d)) => {
                    out.push(m);
                    self.words.clear();
                    self.defer = None;
                    let _ = d;
                    self.bg = false;
                    out.push("2 halt".into());
                }
            },
            8 => {
                let n = src.range(1, 300);
                let w = self.name(src);
                out.push(format!("0labels : {w} 1 if [ {n} ] goto then 5 . [ {n} ] label 7 . ;"));
                self.set_word(&w, 0);
            }
            9 => {
                self.hex = !self.hex;
                out.push(if self.hex { "hex" } else { "decimal" }.into());
            }
            10 => {
                let mut t = String::new();
                for _ in 0..src.usize(4) {
                    t += &self.neutral(src, false).0;
                    t.push('\n');
                }
                let p = self.file(&t);
                self.prints += 1;
                out.push(format!("include {p} 5 ."));
            }
            11 => {
                let n = format!("bg{}", self.serial);
                self.serial += 1;
                let k = 1 + src.usize(3);
                let _ = k;
                out.push(format!(": {n} 2 activate begin {} cnt +! pause again ; {n}", self.num(src)));
                self.bg = true;
            }
            12 => {
                // A macro: immediate word
                let w = format!("x{}", self.serial);
                self.serial += 1;
                let n = self.name(src);
                out.push(format!(": {w} postpone dup postpone . ; immediate : {n} {} {w} ;", self.num(src)));
                self.set_word(&n, 1);
            }
            13 => out.push(src.pick(&["", "   ", "( comment )", "\\ nothing", ".( text)"]).to_string()),
            _ => {
                let w = format!("c{}", self.serial);
                self.serial += 1;
                out.push(match src.usize(3) {
                    0 => format!("{} constant {w} {w} .", self.num(src)),
                    1 => format!("create {w} {} , {} , {w} cell+ @ .", self.num(src), self.num(src)),
                    _ => format!(": mk{w} create , does> @ . ; {} mk{w} {w} {w}", self.num(src)),
                });
            }
        }
    }

    fn done(&mut self, src: &mut Src) -> Done {
        let mut t = String::new();
        let mut prints = false;
        for _ in 0..src.usize(4) {
            let (f, p) = match src.usize(6) {
                0 => (format!("{} constant q{}", self.num(src), self.serial), false),
                1 => (format!("{} {}.5e", self.num(src), self.num(src)), false),
                2 => ("1 2 swap".into(), false),
                3 => (format!(": q{} {} ;", self.serial, self.num(src)), false),
                _ => self.neutral(src, false),
            };
            self.serial += 1;
            t += &f;
            t.push(' ');
            prints |= p;
        }
        Done { text: t, prints }
    }
}

/// An error at run time: code, description.
fn runtime(src: &mut Src) -> (String, &'static str) {
    let (t, d) = *src.pick(&[
        ("1 0 /", "Division by zero"),
        ("1 0 mod", "Division by zero"),
        ("7 0 /mod", "Division by zero"),
        ("0 @", "Invalid memory address"),
        ("5 0 !", "Invalid memory address"),
        ("-8 c@", "Invalid memory address"),
        ("1 -1 c!", "Invalid memory address"),
        ("0 f@", "Invalid memory address"),
        ("0 5 type", "Invalid memory address"),
        ("0 8 1 fill", "Invalid memory address"),
        ("1000000000 allot", "Dictionary overflow"),
        ("-7 execute", "Unsupported operation"),
        ("99999999 execute", "Unsupported operation"),
        ("abort", ""),
        ("9 activate", "?"),
        ("here 5 5 open-file 2drop 0stacks 1 0 mod", "Division by zero"),
        ("9 resume", "Invalid numeric argument"),
        ("0 suspend", "Invalid numeric argument"),
    ]);
    if d == "?" {
        return ("1 0 /".into(), "Division by zero");
    }
    (t.into(), d)
}

/// An error found after the word returned.
fn stacky(src: &mut Src) -> (String, &'static str) {
    let (t, d) = *src.pick(&[
        ("0stacks drop", "Stack underflow"),
        ("0stacks 2drop", "Stack underflow"),
        ("0stacks 1 2drop drop", "Stack underflow"),
        ("0stacks fdrop", "Floating point stack underflow"),
        ("0stacks 1.0e fdrop fdrop", "Floating point stack underflow"),
        ("70 0 do i loop", "Stack overflow"),
        ("0stacks 66 0 do 1 loop", "Stack overflow"),
        ("70 0 do 1.0e loop", "Floating point stack overflow"),
    ]);
    (t.into(), d)
}

struct Bad {
    /// Lines typed in the session with errors, and those which replace them.
    lines: Vec<String>,
    instead: Vec<String>,
    /// Token and description reported by the last line; None: nothing.
    report: Option<(String, String)>,
    /// The completed effects print in the last line
    prints: bool,
    /// Path, line number and text
    at: Option<(String, usize, String)>,
}

fn bad(src: &mut Src, g: &mut G) -> Bad {
    let d = g.done(src);
    let rest = *src.pick(&["", " 5 .", " v0 off v1 off", " : w0 77 ; : w1 88 ;", " 3 0 do", " hex", " \\ end", " bye-bye", " \" text ; ; then", " marker w2", " 6 6 6", " ( un"]);
    let b = format!("bad{}", g.serial);
    g.serial += 1;
    let plain = |fail: String, token: &str, desc: &str| Bad {
        lines: vec![format!("{}{}{}", d.text, fail, rest)],
        instead: vec![format!("{}0stacks", d.text)],
        report: if desc.is_empty() { None } else { Some((token.into(), desc.into())) },
        prints: d.prints,
        at: None,
    };
    let r = match src.weighted(&[4, 3, 3, 4, 3, 4, 4, 2, 4, 3, 3, 3, 1, 1]) {
        0 => {
            let t = *src.pick(&["zork", "Zork!", "12x", "-", "--1", "é", "0x1g", "]]", ";;", "1e5x"]);
            // `-` is a word: it fails only on an empty stack.
            let t = if t == "-" { "zork-" } else { t };
            plain(t.to_string(), t, "Undefined word")
        }
        1 => {
            let t = *src.pick(&["if", "else", "then", "begin", "while", "repeat", "until", "again", "do", "?do", "loop", "+loop", "leave", "case", "of", "endof", "endcase", "exit", "recurse", ";", "literal", ">r", "r>", "r@", "i", "j", "unloop", "postpone dup", "[char] a", "['] dup", "does>", "goto", "label", "s\" a\"", ".\" a\"", "2>r"]);
            plain(t.to_string(), t.split(' ').next().unwrap(), "Interpreting a compile only word")
        }
        2 => {
            // A missing name: nothing may follow.
            let t = *src.pick(&[":", "constant", "variable", "create", "defer", "marker", "2variable", "fvariable", "'", "char", "2constant", "+field"]);
            let pre = if t.ends_with("constant") || t == "+field" { "1 2 " } else { "" };
            Bad {
                lines: vec![format!("{}{pre}{t}", d.text)],
                instead: vec![format!("{}0stacks", d.text)],
                report: Some(("".into(), "Unexpected end of file".into())),
                prints: d.prints,
                at: None,
            }
        }
        3 => {
            let (t, desc) = runtime(src);
            let token = t.split(' ').last().unwrap().to_string();
            plain(t, &token, desc)
        }
        4 => {
            let (t, desc) = *src.pick(&[
                ("0stacks drop", "Stack underflow"),
                ("0stacks nip", "Stack underflow"),
                ("0stacks 1 +", "Stack underflow"),
                ("0stacks .", "Stack underflow"),
                ("0stacks !", "Stack underflow"),
                ("0stacks fdrop", "Floating point stack underflow"),
                ("0stacks 1.0e f+", "Floating point stack underflow"),
                ("0stacks 1 constant nn drop", "Stack underflow"),
            ]);
            if t.ends_with(" .") || t.ends_with('!') {
                // What is printed or reported for a missing item is not specified.
                plain("0stacks drop".into(), "drop", "Stack underflow")
            } else {
                let token = t.split(' ').last().unwrap().to_string();
                if t.contains("constant") {
                    let f = format!("0stacks 1 constant nn{} drop", g.serial);
                    g.serial += 1;
                    plain(f, &token, desc)
                } else {
                    plain(t.into(), &token, desc)
                }
            }
        }
        5 | 6 => {
            // Deep inside words
            let late = src.chance(1, 3);
            let (t, desc) = if late { stacky(src) } else { runtime(src) };
            // An error of the stacks is found when control returns to the top level.
            let mut defs = if late { format!(": {b} {t} ;") } else { format!(": {b} {t} 9 . ;") };
            let mut top = b.clone();
            let levels = src.usize(4);
            for k in 0..levels {
                let n = format!("{b}{}", (b'a' + k as u8) as char);
                let body = match src.usize(9) {
                    _ if late => format!("{top}"),
                    0 => format!("3 0 do {top} loop"),
                    1 => format!("7 >r {top} r> drop"),
                    2 => format!("1 if {top} then"),
                    3 => format!("['] {top} execute"),
                    4 => format!("begin {top} again"),
                    5 => format!("5 1 do 3 0 do {top} loop loop"),
                    6 => format!("3 case 3 of {top} endof endcase"),
                    7 => format!("{top} 8 ."),
                    _ => format!("1.0e2 5 {top}"),
                };
                defs += &format!(" : {n} {body} ;");
                top = n;
            }
            let (call, token) = match src.usize(6) {
                0 => (format!("' {top} execute"), "execute".to_string()),
                1 => {
                    defs += &format!(" defer d{b} ' {top} ' d{b} defer!");
                    (format!("d{b}"), format!("d{b}"))
                }
                2 => {
                    // While compiling
                    defs += &format!(" : m{b} {top} ; immediate");
                    (format!(": w3 5 m{b}"), format!("m{b}"))
                }
                3 => {
                    // In brackets
                    (format!(": w4 5 [ {top} ] ;"), top.clone())
                }
                4 => {
                    defs += &format!(" : i{b} create 5 , does> drop 0stacks {top} ; i{b} k{b}");
                    (format!("k{b}"), format!("k{b}"))
                }
                _ => (top.clone(), top.clone()),
            };
            let x = Bad {
                lines: vec![defs.clone(), format!("{}{}{}", d.text, call, rest)],
                instead: vec![defs, format!("{}0stacks", d.text)],
                report: if desc.is_empty() { None } else { Some((token, desc.into())) },
                prints: d.prints,
                at: None,
            };
            x
        }
        7 => {
            // Return stack overflow by recursion
            let n = src.range(65, 120);
            Bad {
                lines: vec![format!(": {b} dup if 1- recurse then ;"), format!("{}&{n} {b}{rest}", d.text).replace('&', "#")],
                instead: vec![format!(": {b} dup if 1- recurse then ;"), format!("{}0stacks", d.text)],
                report: Some((b.clone(), "Return stack overflow".into())),
                prints: d.prints,
                at: None,
            }
        }
        8 => {
            // Malformed definitions
            let name = g.name(src);
            let (t, token, desc) = *src.pick(&[
                ("if ;", ";", "Control structure mismatch"),
                ("then", "then", "Control structure mismatch"),
                ("5 0 do i", ";", "Control structure mismatch"),
                ("begin 1 while ;", ";", "Control structure mismatch"),
                ("begin then", "then", "Control structure mismatch"),
                ("if loop", "loop", "Control structure mismatch"),
                ("case 1 of endcase", "endcase", "Control structure mismatch"),
                ("leave", "leave", "Control structure mismatch"),
                ("else", "else", "Control structure mismatch"),
                ("repeat", "repeat", "Control structure mismatch"),
                ("do until", "until", "Control structure mismatch"),
                ("[ 0 ] label", "label", "Invalid numeric argument"),
                ("[ 1000 ] goto", "goto", "Invalid numeric argument"),
                ("zork", "zork", "Undefined word"),
                ("[ 7 ] goto zork", "zork", "Undefined word"),
                ("postpone zork", "zork", "Undefined word"),
                ("['] zork", "zork", "Undefined word"),
                ("[ zork ]", "zork", "Undefined word"),
                ("[char]", "", "Unexpected end of file"),
                ("[']", "", "Unexpected end of file"),
                ("1000000 allot ;", "", ""),
            ]);
            let t = if desc.is_empty() { ("zork", "zork", "Undefined word") } else { (t, token, desc) };
            let (t, token, desc) = t;
            let mut lines = vec![];
            let head = format!(": {name} {}", g.neutral(src, true).0);
            if src.chance(1, 2) {
                // The definition was opened on an earlier line
                lines.push(head);
                for _ in 0..src.usize(2) {
                    lines.push(g.neutral(src, true).0);
                }
                lines.push(t.to_string());
            } else {
                lines.push(format!("{head} {t}"));
            }
            if token == ";" && !t.ends_with(';') {
                lines.last_mut().unwrap().push_str(" ;");
            }
            let mut instead = vec![String::new(); lines.len()];
            let l = instead.len() - 1;
            instead[l] += "0stacks";
            if !token.is_empty() {
                lines.last_mut().unwrap().push_str(rest);
            }
            Bad { lines, instead, report: Some((token.into(), desc.into())), prints: false, at: None }
        }
        9 | 10 => {
            // In an included file, possibly nested
            let (t, desc, token) = match src.usize(4) {
                0 => ("zork".to_string(), "Undefined word", "zork".to_string()),
                1 => {
                    let (t, desc) = runtime(src);
                    let k = t.split(' ').last().unwrap().to_string();
                    (t, desc, k)
                }
                2 => ("0stacks drop".into(), "Stack underflow", "drop".into()),
                _ => (": w5 5 if ; ".into(), "Control structure mismatch", ";".into()),
            };
            let levels = src.usize(4);
            let nl = *src.pick(&["\n", "\r\n"]);
            // Innermost file
            let (d1, mut d2) = (g.done(src), g.done(src));
            if !d2.text.is_empty() {
                d2.text += "7 . ";
                d2.prints = true;
            }
            let errline = format!("{}{}{}", d2.text, t, rest);
            let mut before = String::new();
            let mut number = 1;
            for _ in 0..src.usize(4) {
                before += nl;
                number += 1;
            }
            before += &d1.text;
            before += nl;
            number += 1;
            if src.chance(1, 3) {
                // A good file is included before
                let inner = g.file(&format!("5 .{nl}{nl}v0 @ .{nl}"));
                before += &format!("include {inner}{nl}");
                number += 1;
            }
            let mut p = g.file(&format!("{before}{errline}{nl}v0 off{nl}{nl} 9 ."));
            let mut q = g.file(&format!("{before}{}", d2.text));
            let at = Some((p.clone(), number, errline));
            for _ in 0..levels {
                let pre = format!("{}{nl}", g.neutral(src, false).0.replace("pp", "1 ."));
                p = g.file(&format!("{pre}5 include {p} 6 .{nl}v1 off{nl}"));
                q = g.file(&format!("{pre}5 include {q}"));
            }
            Bad {
                lines: vec![format!("{}include {p}{rest}", d.text)],
                instead: vec![format!("{}include {q} 0stacks", d.text)],
                report: if desc.is_empty() { None } else { Some((token, desc.into())) },
                prints: d2.prints,
                at,
            }
        }
        11 => {
            // Missing file
            let mut b = plain("include /nonexistent/file.fth".into(), "", "");
            b.report = None;
            b
        }
        12 => plain("[ ' zork ]".into(), "zork", "Undefined word"),
        _ => {
            // Unsupported radix, which remains set: set it back afterwards.
            let mut b = plain("7 base ! 5 3 .r".into(), ".r", "Unsupported operation");
            b.instead[0] += " 7 base !";
            b.lines.push("decimal".into());
            b.instead.push("decimal".into());
            g.hex = false;
            b
        }
    };
    g.depth = 0;
    g.fdepth = 0;
    r
}

fn prelude() -> Vec<String> {
    vec![
        "variable v0 variable v1 variable v2 variable v3 variable cnt".into(),
        "0 v0 ! 0 v1 ! 0 v2 ! 0 v3 ! 0 cnt !".into(),
        ": pp pause pause cnt @ . ;".into(),
    ]
}

enum Item {
    Normal(String),
    Bad(Bad),
}

fn run_lines(lines: &[String]) -> (Vm, Vec<String>) {
    let mut vm = Vm::repl(lines);
    vm.run_repl();
    let t = SESSION.with(|s| s.borrow().clone());
    (vm, t)
}

fn check_report(text: &str, instead: &str, b: &Bad) -> R {
    // Text of the completed effects
    let mut out = match instead.strip_suffix(" ok\r\n") {
        Some(o) => o.to_string(),
        None => return fail("effects", format!("the completed effects fail: {instead:?}")),
    };
    if b.at.is_some() && b.prints {
        match out.strip_suffix('\n') {
            Some(o) => out = o.to_string(),
            None => return fail("flush", format!("no line end after the file: {out:?}")),
        }
    }
    match &b.report {
        None => {
            let want = if out.is_empty() || (b.at.is_some() && !b.prints && out.ends_with('\n')) { out.clone() } else { format!("{out}\n") };
            ensure!(text == want, "silent", "an aborted line prints {text:?}, expected {want:?}");
        }
        Some((token, desc)) => {
            let mut want = format!("{out}{token} {desc}");
            if let Some((p, n, l)) = &b.at {
                want += &format!(" ({p}:{n}: {l})");
            }
            ensure!(text.starts_with(&want), "report", "a failing line prints {text:?}, expected {want:?}...");
            ensure!(text.ends_with('\n'), "report", "the report does not end the line: {text:?}");
        }
    }
    Ok(())
}

fn session_of(src: &mut Src, ctx: &mut Ctx, len: usize, bads: (u64, u64)) -> R {
    let mut g = G::new(ctx.scratch().clone());
    let mut items = vec![];
    let mut nbad = 0;
    for _ in 0..len {
        if src.chance(bads.0, bads.1) {
            items.push(Item::Bad(bad(src, &mut g)));
            nbad += 1;
        } else {
            let mut out = vec![];
            g.normal(src, &mut out);
            items.extend(out.into_iter().map(Item::Normal));
        }
    }
    // Everything at the end
    let mut last = vec![".s".to_string(), "decimal v0 @ . v1 @ . v2 @ . v3 @ . cnt @ .".to_string(), "base @ . depth . source-id .".into()];
    for w in &g.words {
        last.push(format!("{}{}", w.0, " .".repeat(w.1)));
    }
    if let Some(d) = &g.defer {
        last.push(d.clone());
    }
    for i in 0..6 {
        last.push(format!("' w{i} drop"));
    }
    last.push(": after 3 0 do i . loop ; after .s".into());
    last.push(".backtrace .s".into());
    items.extend(last.into_iter().map(Item::Normal));
    let mut with = prelude();
    let mut without = prelude();
    let skip = with.len();
    for i in &items {
        match i {
            Item::Normal(l) => {
                with.push(l.clone());
                without.push(l.clone());
            }
            Item::Bad(b) => {
                with.extend(b.lines.iter().cloned());
                without.extend(b.instead.iter().cloned());
            }
        }
    }
    for (i, (a, b)) in with.iter().zip(&without).enumerate() {
        if a == b {
            note!(ctx, "{i:3}: {a}");
        } else {
            note!(ctx, "{i:3}: {a}      <<fails; replaced by: {b}>>");
        }
    }
    let (mut va, ta) = run_lines(&with);
    let (mut vb, tb) = run_lines(&without);
    ensure!(ta.len() == with.len() + 1 && tb.len() == with.len() + 1, "ended", "the session ended after {} of {} lines", ta.len().saturating_sub(1), with.len());
    let mut n = skip + 1;
    for i in &items {
        match i {
            Item::Normal(l) => {
                ensure!(ta[n] == tb[n], "line", "line {:?} prints {:?}, and {:?} without the failing lines", l, ta[n], tb[n]);
                if tb[n].len() > 7 {
                    ctx.label("line prints");
                }
                n += 1;
            }
            Item::Bad(b) => {
                let failing = if b.lines.last().unwrap() == "decimal" { b.lines.len() - 2 } else { b.lines.len() - 1 };
                for k in 0..b.lines.len() {
                    if b.lines[k] == b.instead[k] {
                        ensure!(ta[n + k] == tb[n + k], "line", "line {:?} prints {:?}, and {:?} without the failing lines", b.lines[k], ta[n + k], tb[n + k]);
                    } else if k != failing {
                        ensure!(ta[n + k].starts_with(' ') && ta[n + k].ends_with("\r\n"), "compiling", "line {:?} prints {:?}", b.lines[k], ta[n + k]);
                    }
                }
                let (text, instead) = (&ta[n + failing], &tb[n + failing]);
                // The name of the definition being made may be announced as redefined.
                let text = strip_redefining(&text);
                let instead = strip_redefining(instead);
                if let Err(f) = check_report(&text, &instead, b) {
                    return fail(&f.sig, format!("line {:?}: {}", b.lines[failing], f.msg));
                }
                match b.report {
                    None => ctx.label("silent error"),
                    Some(_) if b.at.is_some() => ctx.label("error in a file"),
                    Some(_) => ctx.label("reported error"),
                }
                if b.lines.len() > 1 {
                    ctx.label("failing group of several lines");
                }
                n += b.lines.len();
            }
        }
    }
    ensure!(va.stack() == vb.stack() && va.fstack() == vb.fstack(), "stacks", "final stacks {:?} {:?}, without the failing lines {:?} {:?}", va.stack(), va.fstack(), vb.stack(), vb.fstack());
    ensure!(va.rdepth() == vb.rdepth(), "return stack", "final return stack depth {} and {}", va.rdepth(), vb.rdepth());
    ensure!(va.cdepth() == vb.cdepth(), "control stack", "final control stack depth {} and {}", va.cdepth(), vb.cdepth());
    for i in 0..5 {
        ensure!(va.is_awake(i) == vb.is_awake(i), "awake", "task {i} is awake: {} and {}", va.is_awake(i), vb.is_awake(i));
        ensure!(va.task_stacks(i).0 == vb.task_stacks(i).0, "task", "stack of task {i}: {:?} and {:?}", va.task_stacks(i), vb.task_stacks(i));
    }
    if nbad >= 2 && items.len() >= 8 && g.prints > 0 {
        ctx.nontrivial();
    }
    Ok(())
}

/// The announcement of a redefinition is not compared on failing lines.
fn strip_redefining(t: &str) -> String {
    let mut r = String::new();
    let mut rest = t;
    while let Some(i) = rest.find("Redefining ") {
        r.push_str(&rest[..i]);
        let after = &rest[i + 11..];
        // The names which are redefined have two characters, and nothing follows them.
        rest = after.get(2..).unwrap_or("");
    }
    r.push_str(rest);
    r
}

fn session(src: &mut Src, ctx: &mut Ctx) -> R {
    let len = 6 + src.usize(20);
    session_of(src, ctx, len, (2, 5))
}

/// Lines of a session, failing ones included, which define nothing that depends on addresses.
pub fn typed_lines(src: &mut Src, ctx: &Ctx, len: usize, bads: (u64, u64)) -> Vec<String> {
    let mut g = G::new(ctx.scratch().clone());
    let mut lines = prelude();
    for _ in 0..len {
        if src.chance(bads.0, bads.1) {
            lines.extend(bad(src, &mut g).lines);
        } else {
            g.normal(src, &mut lines);
        }
    }
    lines
}

/// Many failing lines: nothing is used up.
fn long(src: &mut Src, ctx: &mut Ctx) -> R {
    let len = 120 + src.usize(150);
    session_of(src, ctx, len, (4, 5))
}

/// Failing includes must not use up file descriptors.
fn descriptors(src: &mut Src, ctx: &mut Ctx) -> R {
    let dir = ctx.scratch().clone();
    let mut lines = vec![];
    let levels = 1 + src.usize(3);
    let err = *src.pick(&["zork", "1 0 /", "abort", ": x if ;", "drop", "include /nonexistent/file"]);
    let mut p = dir.join("e0.fth");
    std::fs::write(&p, format!("1\n{err}\n")).unwrap();
    for k in 1..levels {
        let q = dir.join(format!("e{k}.fth"));
        std::fs::write(&q, format!("include {}\n", p.display())).unwrap();
        p = q;
    }
    let good = dir.join("good.fth");
    std::fs::write(&good, "1 2 + .\n").unwrap();
    for _ in 0..30 + src.usize(80) {
        lines.push(format!("include {}", p.display()));
    }
    lines.push(format!("include {} 5 .", good.display()));
    let mut old = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    let open = std::fs::read_dir("/proc/self/fd").map_or(32, |d| d.count() as u64);
    unsafe {
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut old);
        let l = libc::rlimit { rlim_cur: open + 24, rlim_max: old.rlim_max };
        libc::setrlimit(libc::RLIMIT_NOFILE, &l);
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_lines(&lines)));
    unsafe {
        libc::setrlimit(libc::RLIMIT_NOFILE, &old);
    }
    let (_vm, t) = match r {
        Ok(x) => x,
        Err(e) => std::panic::resume_unwind(e),
    };
    note!(ctx, "{} failing includes of {levels} nested files ({err}), then a good one", lines.len() - 1);
    let got = t.get(lines.len()).cloned().unwrap_or_default();
    ensure!(got == " 3 \n5  ok\r\n", "descriptors", "after {} failing includes a good one prints {got:?}", lines.len() - 1);
    ctx.nontrivial();
    Ok(())
}
