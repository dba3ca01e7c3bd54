//! C13: source text is tokenised independent of layout; parsed text is exact.
use crate::engine::*;
use crate::model;
use crate::vm::Vm;

pub fn property() -> Property {
    Property {
        id: "C13",
        rule: "Family layout: a program of definitions, control structures, strings, data words, numbers and printing, now and then with an error in it, is evaluated once in a canonical layout (lower case, one space, one line) and once or twice in generated layouts (runs of space, tab, CR, LF between words; split in lines anywhere but between a parsing word and its argument; letter case; comments of both kinds with any text in between); both must agree on stacks, output, exception and data-space use. Family tokens: any text is split by PARSE-WORD !TOKEN exactly at space, tab, CR and LF. Family parsed: every parsing word with any Unicode text and what follows, against the text itself. Family missing: every defining or parsing word with nothing behind it raises -39, defines nothing and keeps the machine usable. Family literal: [ program ] LITERAL against the model of the integer words. Family reread: lines which return to a place saved by SAVE-INPUT a number of times with RESTORE-INPUT, move on by SOURCE-IDX!, and print SOURCE-IDX, against the bytes of the line. Non-trivial: layout differs from the canonical one in at least two ways and the program has an effect; text not empty; something is missing.",
        families: vec![
            Family { name: "layout", quick: 140_000, thorough: 2_400_000, run: layout },
            Family { name: "tokens", quick: 120_000, thorough: 1_500_000, run: tokens },
            Family { name: "parsed", quick: 250_000, thorough: 3_000_000, run: parsed },
            Family { name: "missing", quick: 30_000, thorough: 300_000, run: missing },
            Family { name: "literal", quick: 50_000, thorough: 600_000, run: literal },
            Family { name: "reread", quick: 60_000, thorough: 600_000, run: reread },
        ],
        probes: vec![],
        assumptions: vec![
            "whitespace is space, tab, carriage return and newline",
            "tokens stored by !TOKEN are at most 255 bytes long",
            "lines are at most a few thousand characters long and leave room for one more item on the data stack at comments",
        ],
    }
}

/// Part of a program.
#[derive(Clone, Debug)]
struct Item {
    /// Words before arguments; their case does not matter.
    word: String,
    /// Text which follows the word exactly (after its one separating space), delimiter included.
    text: Option<String>,
    /// The next item is an argument of this one: same source, no comment in between.
    glue: bool,
    /// The case of the word matters (an argument of CHAR, a character literal).
    exact: bool,
}

fn w(s: &str) -> Item {
    Item { word: s.to_string(), text: None, glue: false, exact: false }
}

fn words(v: &mut Vec<Item>, s: &str) {
    for t in s.split(' ').filter(|t| !t.is_empty()) {
        let glue = matches!(t, ":" | "constant" | "variable" | "create" | "fconstant" | "2constant" | "'" | "[']" | "char" | "[char]" | "postpone" | "defer" | "+field" | "marker" | "mk");
        let after = v.last().map(|i| i.glue && (i.word == "char" || i.word == "[char]")).unwrap_or(false);
        v.push(Item { word: t.to_string(), text: None, glue, exact: after || t.starts_with('\'') && t.len() > 2 });
    }
}

fn any_text(src: &mut Src, no: &[char], max: usize) -> String {
    let n = match src.weighted(&[5, 3, 1]) {
        0 => src.usize(10),
        1 => src.usize(60),
        _ => src.usize(max.max(1)),
    };
    let mut s = String::new();
    for _ in 0..n {
        let c = match src.weighted(&[8, 3, 3, 1]) {
            0 => src.range(33, 126) as u8 as char,
            1 => *src.pick(&[' ', ' ', ' ', '\t']),
            2 => *src.pick(&['é', '漢', '😀', 'ß', '٣', '\u{301}', '\\', '(', ')', '"', '|', '\u{a0}', '\u{3000}', '\u{feff}', '\u{85}', 'İ', 'K', '\u{2028}']),
            _ => char::from_u32(src.range(1, 0xd7ff) as u32).unwrap_or('x'),
        };
        if !no.contains(&c) && c != '\n' && c != '\r' {
            s.push(c);
        }
    }
    s
}

/// A program whose stacks stay small.
fn program(src: &mut Src) -> Vec<Item> {
    let mut v: Vec<Item> = vec![];
    let n = 1 + src.usize(10);
    let mut defs: Vec<String> = vec![];
    let mut nums: Vec<String> = vec![];
    for k in 0..n {
        match src.usize(14) {
            0 | 1 => {
                let l = model::gen_line(src, &[], 10, false, false, 8);
                words(&mut v, &l.tokens.join(" "));
                for _ in 0..l.stack.len() {
                    words(&mut v, *src.pick(&[".", "drop", "h.", "dup . ."]));
                }
            }
            2 => {
                let name = format!("{}w{k}", src.pick(&["", "Long-Name-", "x/", "é"]));
                v.push(Item { glue: true, ..w(":") });
                v.push(w(&name));
                let l = model::gen_line(src, &[], 8, true, false, 8);
                words(&mut v, &l.tokens.join(" "));
                for _ in 0..l.stack.len() {
                    words(&mut v, *src.pick(&[".", "drop"]));
                }
                body(src, &mut v, &defs, &nums);
                words(&mut v, ";");
                defs.push(name);
            }
            3 => {
                let name = format!("c{k}");
                words(&mut v, &format!("{} constant {name}", src.cell()));
                nums.push(name);
            }
            4 => {
                let name = format!("v{k}");
                words(&mut v, &format!("variable {name} {} {name} !", src.small()));
                nums.push(format!("{name} @"));
            }
            5 => {
                let t = any_text(src, &[')'], 120);
                v.push(Item { text: Some(format!("{t})")), ..w(".(") });
            }
            6 => words(&mut v, &format!("char {} emit", src.pick(&["x", "Yes", "(", "\\", "\"", "q)", "A"]))),
            7 if !defs.is_empty() => {
                let d = defs[src.usize(defs.len())].clone();
                words(&mut v, &match src.usize(3) {
                    0 => d,
                    1 => format!("' {d} execute"),
                    _ => format!(": y{k} postpone {d} ; immediate : z{k} [ 5 ] literal y{k} . ; z{k}"),
                });
            }
            8 if !nums.is_empty() => {
                let d = nums[src.usize(nums.len())].clone();
                words(&mut v, &format!("{d} ."));
            }
            9 => words(&mut v, &format!("{}e{} f. ", src.small(), src.range(-3, 3))),
            10 => words(&mut v, *src.pick(&["hex ff FF + . 1aB . decimal", "$fF . %101 . #12 . 'a' emit 'Z' emit", "here 5 , 1 cells + c, here drop", "create d 1 , 2 , d @ . d cell+ @ .", ": mk create , does> @ 1+ ; 5 mk m m .", "marker mm : q 1 ; mm"])),
            11 => {
                let mut b = vec![];
                body(src, &mut b, &defs, &nums);
                words(&mut v, ": tmp");
                v.append(&mut b);
                words(&mut v, "; tmp");
            }
            12 => words(&mut v, *src.pick(&["1 2 3 .s 2drop drop", "5 6 2dup . . + .", "0 if", "[ 3 .", "defer dd ' noop ' dd defer! dd"].as_slice())),
            _ => words(&mut v, &format!("{} .", src.cell())),
        }
    }
    if src.chance(1, 3) {
        // Something goes wrong somewhere.
        let at = src.usize(v.len() + 1);
        if at == 0 || !v[at - 1].glue {
            v.insert(at, w(*src.pick(&["undefined-word", "1x", "then", ";", "0 @", "1 0 /", "abort", "loop"])));
        }
    }
    v
}

fn body(src: &mut Src, v: &mut Vec<Item>, defs: &[String], nums: &[String]) {
    for _ in 0..src.usize(4) {
        match src.usize(9) {
            0 => {
                let t = any_text(src, &['"'], 120);
                v.push(Item { text: Some(format!("{t}\"")), ..w(".\"") });
            }
            1 => {
                let t = any_text(src, &['"'], 120);
                v.push(Item { text: Some(format!("{t}\"")), ..w("s\"") });
                words(v, *src.pick(&["type", "nip .", "drop c@ ."]));
            }
            2 => {
                words(v, &format!("{} 0 ?do i .", src.usize(5)));
                body(src, v, defs, nums);
                words(v, *src.pick(&["loop", "2 +loop", "i 1 = if leave then loop"]));
            }
            3 => {
                words(v, &format!("{} if", src.usize(2)));
                body(src, v, defs, nums);
                if src.chance(1, 2) {
                    words(v, "else");
                    body(src, v, defs, nums);
                }
                words(v, "then");
            }
            4 => words(v, &format!("{} begin dup while dup . 1- repeat drop", src.usize(4))),
            5 => words(v, &format!("{} case 0 of .\" a", src.usize(3)).replace(".\" a", "10 . endof 1 of 20 . endof dup . endcase")),
            6 => words(v, &format!("[char] {} emit", src.pick(&["x", "Yes", "(", "\\", "A"]))),
            7 if !defs.is_empty() => words(v, &defs[src.usize(defs.len())]),
            8 if !nums.is_empty() => words(v, &format!("{} .", nums[src.usize(nums.len())])),
            _ => words(v, &format!("{} .", src.cell())),
        }
    }
}

/// The program in one line.
fn canonical(v: &[Item]) -> String {
    let mut s = String::new();
    for i in v {
        s.push_str(&i.word);
        s.push(' ');
        if let Some(t) = &i.text {
            s.push_str(t);
            s.push(' ');
        }
    }
    s
}

fn ws(src: &mut Src, nl: bool) -> String {
    let n = match src.weighted(&[400, 300, 100, 1]) {
        0 => 1,
        1 => 1 + src.usize(3),
        3 => 1 + src.usize(5000),
        _ => 1 + src.usize(if src.scale > 1 { 300 } else { 20 }),
    };
    (0..n).map(|_| *src.pick(if nl { &[" ", " ", "\t", "\n", "\r\n", "\r"] } else { &[" ", " ", "\t"] })).collect()
}

/// Lines of the program in a generated layout and the number of kinds of differences.
fn laid_out(src: &mut Src, v: &[Item], split: bool, newlines: bool) -> (Vec<String>, u32) {
    let mut lines = vec![];
    let mut s = String::new();
    let (vary, comment) = (src.chance(3, 4), src.chance(3, 4));
    let mut kinds = 0u32;
    if src.chance(1, 2) {
        s += &ws(src, newlines);
    }
    for (k, i) in v.iter().enumerate() {
        if vary && !i.exact {
            let t = model::vary_case(src, &i.word);
            if t != i.word {
                kinds |= 1;
            }
            s += &t;
        } else {
            s += &i.word;
        }
        if let Some(t) = &i.text {
            // The one separating character is a space here: .( prints it.
            s.push(' ');
            s += t;
        }
        if i.glue {
            s += &ws(src, newlines);
            continue;
        }
        let closed = i.text.is_some();
        let last = k + 1 == v.len();
        let mut sep = false;
        if closed && src.chance(1, 3) {
            // Parsing resumes right behind the delimiter.
            sep = true;
            kinds |= 2;
        }
        if comment && src.chance(1, 6) {
            if !sep {
                s += &ws(src, newlines);
            }
            kinds |= 4;
            let m = if src.scale > 1 { 3000 } else { 60 };
            let t = any_text(src, &[')'], m);
            let nl = if newlines && src.chance(1, 4) { "\n" } else { "" };
            s += &format!("( {t}{nl})");
            sep = src.chance(1, 3);
        }
        if comment && src.chance(1, 10) && (split || newlines) {
            if !sep {
                s += &ws(src, newlines);
            }
            kinds |= 8;
            let m = if src.scale > 1 { 3000 } else { 60 };
            let t = any_text(src, &[], m);
            s += &format!("\\ {t}");
            if split {
                lines.push(std::mem::take(&mut s));
            } else {
                s += "\n";
            }
            continue;
        }
        if split && src.chance(1, 4) {
            if src.chance(1, 4) {
                s += &ws(src, newlines);
            }
            lines.push(std::mem::take(&mut s));
            kinds |= 16;
            if src.chance(1, 6) {
                let t = if src.chance(1, 2) { String::new() } else { ws(src, newlines) };
                lines.push(t);
            }
            continue;
        }
        if !sep && !(last && src.chance(1, 2)) {
            let t = ws(src, newlines);
            if t != " " {
                kinds |= 32;
            }
            s += &t;
        }
    }
    lines.push(s);
    (lines, kinds)
}

/// Lines of a program in any layout, without line ends inside.
pub fn gen_lines(src: &mut Src) -> Vec<String> {
    let v = program(src);
    laid_out(src, &v, true, false).0
}

struct Seen {
    result: Result<(), i64>,
    stack: Vec<i64>,
    fstack: Vec<u64>,
    out: String,
    used: usize,
    compiling: bool,
    base: i64,
}

fn observe(lines: &[String], forth: bool) -> Seen {
    let mut vm = Vm::new();
    let h = vm.here();
    let mut result = Ok(());
    for l in lines {
        result = if forth { vm.eval_forth(l) } else { vm.eval(l) };
        if result.is_err() {
            break;
        }
    }
    let start = vm.start() as i64;
    let (lo, hi) = (start, vm.limit() as i64);
    // Addresses differ between machines.
    let stack = vm.stack().iter().map(|&v| if v >= lo && v < hi { v - start } else { v }).collect();
    Seen {
        result,
        stack,
        fstack: vm.fstack().iter().map(|x| x.to_bits()).collect(),
        out: vm.take_output(),
        used: vm.here() - h,
        compiling: vm.is_compiling(),
        base: vm.base(),
    }
}

fn layout(src: &mut Src, ctx: &mut Ctx) -> R {
    let v = program(src);
    let c = canonical(&v);
    note!(ctx, "canonical: {c:?}");
    let a = observe(&[c], false);
    for _ in 0..1 + src.usize(2) {
        let split = src.chance(1, 2);
        let forth = src.chance(1, 3);
        let newlines = src.chance(1, 2);
        let (lines, kinds) = laid_out(src, &v, split, newlines);
        note!(ctx, "layout: {lines:?}{}", if forth { " (evaluate-input)" } else { "" });
        let b = observe(&lines, forth);
        ensure!(a.result == b.result, "exception", "canonical layout {:?}, this one {:?}", a.result, b.result);
        ensure!(a.out == b.out, "output", "canonical layout prints {:?}, this one {:?}", a.out, b.out);
        ensure!(a.stack == b.stack, "stack", "canonical layout leaves {:?}, this one {:?}", a.stack, b.stack);
        ensure!(a.fstack == b.fstack, "fstack", "the float stacks differ");
        ensure!(a.used == b.used, "here", "canonical layout uses {} bytes, this one {}", a.used, b.used);
        ensure!(a.base == b.base && a.compiling == b.compiling, "state", "BASE or the state differ");
        if kinds.count_ones() >= 2 && (!a.out.is_empty() || a.result.is_err()) {
            ctx.nontrivial();
        }
    }
    if a.result.is_err() {
        ctx.label("with an error");
    }
    Ok(())
}

/// Characters as they are used in tokens.
fn token_text(src: &mut Src, max: usize) -> String {
    let n = 1 + src.usize(max);
    let mut s = String::new();
    for _ in 0..n {
        let c = match src.weighted(&[6, 4, 1]) {
            0 => src.range(33, 126) as u8 as char,
            1 => *src.pick(&['é', '漢', '😀', '\u{301}', '\u{a0}', '\u{3000}', '\u{feff}', '\u{85}', '\u{b}', '\u{c}', '\u{1}', '\u{1f}', '\u{7f}', '\u{0}', '"', '\\', '\u{2028}', 'İ']),
            _ => char::from_u32(src.range(0x21, 0x10ffff) as u32).unwrap_or('x'),
        };
        s.push(c);
    }
    s
}

fn tokens(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = Vm::new();
    ensure!(vm.eval(": toks begin parse-word here !token here count dup while type 10 emit repeat 2drop ;") == Ok(()), "setup", "");
    let forth = src.chance(1, 3);
    let n = if src.chance(1, 300) { src.usize(3000) } else { src.usize(if src.scale > 1 { 80 } else { 12 }) };
    let mut line = model::vary_case(src, "toks");
    let mut expect = String::new();
    for _ in 0..n {
        line += &ws(src, true);
        let long = src.chance(1, 20);
        let mut t = token_text(src, if long { 200 } else { 8 });
        while t.len() > 255 {
            t.pop();
        }
        line += &t;
        expect += &t;
        expect.push('\n');
    }
    if src.chance(1, 2) {
        line += &ws(src, true);
    }
    note!(ctx, "{line:?}");
    let r = if forth { vm.eval_forth(&line) } else { vm.eval(&line) };
    ensure!(r == Ok(()), "exception", "exception {r:?}");
    let out = vm.take_output();
    ensure!(out == expect, "tokens", "tokens {:?}, expected {:?}", out, expect);
    ensure!(vm.stack().is_empty(), "stack", "stack {:?}", vm.stack());
    if n > 1 {
        ctx.nontrivial();
    }
    Ok(())
}

/// Every parsing word with what follows it.
fn parsed(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = Vm::new();
    let forth = src.chance(1, 3);
    macro_rules! eval {
        ($l:expr) => {{
            let l: String = $l;
            note!(ctx, "{l:?}{}", if forth { " (evaluate-input)" } else { "" });
            if forth { vm.eval_forth(&l) } else { vm.eval(&l) }
        }};
    }
    let below = src.cell();
    vm.push(below);
    let max = if src.chance(1, 20) { 3000 } else { 255 };
    // What follows the delimiter at once.
    let rest = *src.pick(&[" 4711", "4711", "\t4711", " 4711 ", "  4711"]);
    let kind = src.usize(12);
    let named = ["s\"", ".\"", ".(", "(", "\\", "word", "parse", "char", "[char]", "!token", "['] '", "s\" twice"];
    ctx.label(named[kind]);
    let sepc = *src.pick(&[" ", " ", " ", "\t", "\n", "\r"]);
    match kind {
        0 => {
            let mut t = any_text(src, &['"'], max);
            if src.chance(1, 8) {
                t.insert(t.char_indices().map(|(i, _)| i).nth(src.usize(t.chars().count().max(1))).unwrap_or(0), '\n');
            }
            let open = src.chance(1, 8);
            let sq = model::vary_case(src, "s\"");
            let r = if open {
                // No closing quote: the rest of the line.
                let r = eval!(format!(": t {sq}{sepc}{t}"));
                ensure!(r == Ok(()), "exception", "exception {r:?}");
                eval!("4711 ; t".to_string())
            } else {
                let rest = *src.pick(&[" 4711", "4711", "\t4711"]);
                eval!(format!(": t {sq}{sepc}{t}\"{rest} ; t"))
            };
            ensure!(r == Ok(()), "exception", "exception {r:?}");
            let s = vm.stack();
            ensure!(s.len() == 4 && s[0] == below && s[3] == 4711, "stack", "stack {s:?}");
            ensure!(s[2] == t.len() as i64, "length", "length {} of {:?}, expected {}", s[2], t, t.len());
            ensure!(s[1] >= vm.start() as i64 && s[1] + s[2] <= vm.here() as i64, "address", "the string is not in the data space");
            let got = vm.bytes(s[1] as usize, s[2] as usize).to_vec();
            ensure!(got == t.as_bytes(), "text", "text {:?}, expected {:?}", String::from_utf8_lossy(&got), t);
            if !t.is_empty() {
                ctx.nontrivial();
            }
        }
        1 | 2 => {
            let d = if kind == 1 { '"' } else { ')' };
            let mut t = any_text(src, &[d], max);
            if src.chance(1, 8) {
                t.push('\n');
            }
            let open = kind == 2 && src.chance(1, 8);
            let word = model::vary_case(src, if kind == 1 { ".\"" } else { ".(" });
            let line = if kind == 1 {
                format!(": t {word}{sepc}{t}{d}{rest} ; t")
            } else if open {
                format!("4711 {word}{sepc}{t}")
            } else if src.chance(1, 2) {
                format!("{word}{sepc}{t}{d}{rest}")
            } else {
                format!(": t {word}{sepc}{t}{d}{rest} ; t")
            };
            let r = eval!(line);
            ensure!(r == Ok(()), "exception", "exception {r:?}");
            let expect = if kind == 1 { t.clone() } else { format!("{sepc}{t}") };
            let out = vm.take_output();
            ensure!(out == expect, "text", "printed {out:?}, expected {expect:?}");
            ensure!(vm.stack() == [below, 4711], "stack", "stack {:?}", vm.stack());
            if !t.is_empty() {
                ctx.nontrivial();
            }
        }
        3 | 4 => {
            let d = if kind == 3 { ')' } else { '\n' };
            let t = any_text(src, &[d], max);
            let compiled = src.chance(1, 2);
            let word = if kind == 3 { "(" } else { "\\" };
            let sep2 = if kind == 4 && sepc == "\n" { " " } else { sepc };
            let pre = if src.chance(1, 2) { "7 " } else { "" };
            let body = format!("{pre}{word}{sep2}{t}{d}{rest}");
            let r = if compiled { eval!(format!(": t {body} ; t")) } else { eval!(body) };
            ensure!(r == Ok(()), "exception", "exception {r:?}");
            let mut e = vec![below];
            if !pre.is_empty() {
                e.push(7);
            }
            e.push(4711);
            ensure!(vm.stack() == e, "stack", "stack {:?}, expected {e:?}", vm.stack());
            ensure!(vm.take_output().is_empty(), "output", "a comment prints");
            if !t.is_empty() {
                ctx.nontrivial();
            }
            // A comment which is not closed swallows the rest, nothing more.
            let t = any_text(src, &[d], 60);
            let r = eval!(format!("5 {word} {t}"));
            ensure!(r == Ok(()) && vm.stack().len() == e.len() + 1, "open comment", "{r:?}, stack {:?}", vm.stack());
            let r = eval!("6".to_string());
            e.push(5);
            e.push(6);
            ensure!(r == Ok(()) && vm.stack() == e, "open comment", "{r:?}, stack {:?}, expected {e:?}", vm.stack());
        }
        5 => {
            // WORD skips leading delimiters; the text behind the word starts with the separating character.
            let d = match src.usize(4) {
                0 => ' ',
                1 => *src.pick(&['"', ')', '|', ',', 'a', '\\']),
                2 => *src.pick(&['é', '漢', '😀', '\u{301}']),
                _ => '\t',
            };
            let mut t = any_text(src, &[d], 255);
            while t.len() > 254 {
                t.pop();
            }
            if t.trim_start_matches(d).is_empty() {
                t = "x".into();
            }
            let n = if src.chance(1, 12) { src.usize(1500) } else { src.usize(4) };
            let seps = if d == ' ' { " ".repeat(1 + n) } else if d == '\t' { "\t".repeat(1 + n) } else { " ".to_string() };
            let mut expect = String::new();
            let line = if d == ' ' || d == '\t' {
                t = t.trim_start_matches(d).to_string();
                expect += &t;
                format!("{} {}{seps}{t}{d}{}", d as u32, model::vary_case(src, "word"), rest.trim_start())
            } else {
                // The separating space belongs to the text.
                expect += " ";
                expect += &t;
                format!("#{} word {t}{d}{rest}", d as u32)
            };
            // A compiled WORD sees delimiters at once.
            let (line, expect) = if src.chance(1, 3) && d != ' ' && d != '\t' {
                let r = eval!(format!(": pw parse-word drop-token {} word ;", d as u32).replace("parse-word drop-token", "source-idx 1+ source-idx!"));
                ensure!(r == Ok(()), "exception", "exception {r:?}");
                let k = if src.chance(1, 10) { src.usize(1500) } else { src.usize(4) };
                let e = t.clone();
                (format!("pw {}{t}{d}{rest}", d.to_string().repeat(k)), e)
            } else {
                (line, expect)
            };
            let r = eval!(line);
            ensure!(r == Ok(()), "exception", "exception {r:?}");
            let s = vm.stack();
            ensure!(s.len() == 3 && s[0] == below && s[2] == 4711 && s[1] == vm.here() as i64, "stack", "stack {s:?}");
            check_counted(&vm, s[1] as usize, &expect)?;
            if !t.is_empty() {
                ctx.nontrivial();
            }
        }
        6 => {
            // PARSE !TOKEN
            let d = *src.pick(&[' ', '"', ')', 'é', '漢', '😀', ',', '\n']);
            let mut t = any_text(src, &[d], 255);
            while t.len() > 254 {
                t.pop();
            }
            let buf = vm.here() as i64 + 4096;
            ensure!(eval!(format!(": pt {} parse {buf} !token ;", d as u32)) == Ok(()), "setup", "");
            let (line, expect) = if d == ' ' {
                // The separating space is the delimiter: the text is empty.
                (format!("pt {}", rest.trim_start()), String::new())
            } else {
                (format!("pt {t}{d}{rest}"), format!(" {t}"))
            };
            let r = eval!(line);
            ensure!(r == Ok(()), "exception", "exception {r:?}");
            ensure!(vm.stack() == [below, 4711], "stack", "stack {:?}", vm.stack());
            check_counted(&vm, buf as usize, &expect)?;
            if !expect.is_empty() {
                ctx.nontrivial();
            }
        }
        7 | 8 => {
            let t = token_text(src, 5);
            let (a, b) = (ws(src, true), ws(src, true));
            let first = t.chars().next().unwrap() as i64;
            let line = if kind == 7 {
                format!("{}{a}{t}{b}4711", model::vary_case(src, "char"))
            } else {
                format!(": t {}{a}{t}{b}4711 ; t", model::vary_case(src, "[char]"))
            };
            let r = eval!(line);
            ensure!(r == Ok(()), "exception", "exception {r:?}");
            ensure!(vm.stack() == [below, first, 4711], "char", "stack {:?}, expected {first}", vm.stack());
            ctx.nontrivial();
        }
        9 => {
            let mut t = token_text(src, 100);
            while t.len() > 255 {
                t.pop();
            }
            let odd = src.usize(9) as i64;
            let (a, b) = (ws(src, true), ws(src, true));
            let buf = vm.here() as i64 + 2048 + odd;
            let canary = vm.bytes(buf as usize + t.len() + 1, 64).to_vec();
            ensure!(eval!(format!(": pt parse-word {buf} !token ;")) == Ok(()), "setup", "");
            let r = eval!(format!("pt{a}{t}{b}4711"));
            ensure!(r == Ok(()), "exception", "exception {r:?}");
            ensure!(vm.stack() == [below, 4711], "stack", "stack {:?}", vm.stack());
            check_counted(&vm, buf as usize, &t)?;
            ensure!(vm.bytes(buf as usize + t.len() + 1, 64) == canary, "overwritten", "bytes behind the token changed");
            ctx.nontrivial();
        }
        10 => {
            // ' and ['] take exactly one name.
            let name = loop {
                let t = token_text(src, 12);
                if t.len() < 60 && vm.xt(&t).is_none() {
                    break t;
                }
            };
            let (a, b, c) = (ws(src, true), ws(src, true), ws(src, true));
            let r = eval!(format!(":{a}{name}{b}4711 ;"));
            ensure!(r == Ok(()), "exception", "exception {r:?}");
            vm.take_output();
            let r = if src.chance(1, 2) { eval!(format!("'{a}{}{c}execute", vary_ascii(src, &name))) } else { eval!(format!(": zz-t ['] {}{c}execute ; zz-t", vary_ascii(src, &name))) };
            ensure!(r == Ok(()), "exception", "exception {r:?}");
            ensure!(vm.stack() == [below, 4711], "name", "stack {:?}", vm.stack());
            ctx.nontrivial();
        }
        _ => {
            // Two strings in one definition.
            let (t, u) = (any_text(src, &['"'], max), any_text(src, &['"'], max));
            let r = eval!(format!(": t s\" {t}\" s\" {u}\" ; t"));
            ensure!(r == Ok(()), "exception", "exception {r:?}");
            let s = vm.stack();
            ensure!(s.len() == 5, "stack", "stack {s:?}");
            for (k, x) in [(1, &t), (3, &u)] {
                ensure!(s[k + 1] == x.len() as i64 && vm.bytes(s[k] as usize, x.len()) == x.as_bytes(), "text", "string {k} is wrong");
            }
            ctx.nontrivial();
        }
    }
    Ok(())
}

fn vary_ascii(src: &mut Src, s: &str) -> String {
    s.chars().map(|c| if src.chance(1, 3) { if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() } } else { c }).collect()
}

fn check_counted(vm: &Vm, addr: usize, t: &str) -> R {
    let n = vm.bytes(addr, 1)[0] as usize;
    ensure!(n == t.len(), "count", "count {n}, expected {} for {t:?}", t.len());
    ensure!(vm.bytes(addr + 1, n) == t.as_bytes(), "text", "text {:?}, expected {t:?}", String::from_utf8_lossy(vm.bytes(addr + 1, n)));
    Ok(())
}

const NEED_NAME: &[(&str, &str)] = &[
    // word, arguments
    (":", ""), ("constant", "1"), ("variable", ""), ("create", ""), ("fconstant", "1e"), ("fvariable", ""), ("2constant", "1 2"), ("2variable", ""),
    ("defer", ""), ("+field", "0 8"), ("marker", ""), ("'", ""), ("char", ""), (": zz-m [']", ""), (": zz-m [char]", ""), (": zz-m postpone", ""),
    (": zz-m 5 [char]", "7"), (": zz-mk create , ; 5 zz-mk", "3"), (": zz-mk : ; zz-mk", ""), (": zz-mk ' ; zz-mk", ""),
];

fn missing(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = Vm::new();
    let forth = src.chance(1, 3);
    let rounds = 1 + src.usize(4);
    let r = vm.eval(": sane 3 4 + ;");
    ensure!(r == Ok(()), "setup", "");
    for _ in 0..rounds {
        let (word, args) = *src.pick(NEED_NAME);
        let trail = match src.usize(3) {
            0 => String::new(),
            1 => ws(src, true),
            _ => "\n".to_string(),
        };
        let n = src.usize(4);
        let below: String = (0..n).map(|_| format!("{} ", src.cell())).collect();
        let line = format!("{below}{args} {}{trail}", model::vary_case(src, word));
        note!(ctx, "{line:?}{}", if forth { " (evaluate-input)" } else { "" });
        let r = if forth { vm.eval_forth(&line) } else { vm.eval(&line) };
        ensure!(r == Err(-39), "exception", "{word} without a name: {r:?}, expected -39");
        ensure!(vm.stack().is_empty() && vm.fstack().is_empty(), "stack", "stack {:?} after the exception", vm.stack());
        vm.host_reset();
        ensure!(vm.xt("zz-m").is_none(), "defined", "the definition which failed can be found");
        ensure!(vm.xt("").is_none(), "defined", "the empty name is defined");
        vm.take_output();
        let r = vm.eval("sane : zz-p sane 1+ ; zz-p");
        ensure!(r == Ok(()) && vm.stack() == [7, 8], "after", "{r:?}, stack {:?}", vm.stack());
        vm.host_reset();
        vm.take_output();
        ctx.nontrivial();
    }
    Ok(())
}

fn literal(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = Vm::new();
    let forth = src.chance(1, 3);
    let mut text = String::from(": t ");
    let mut expect = vec![];
    let mut fexpect: Vec<f64> = vec![];
    for _ in 0..1 + src.usize(5) {
        match src.usize(6) {
            0 => {
                let v = src.cell();
                text += &format!("{v} ");
                expect.push(v);
            }
            1 | 2 => {
                let l = loop {
                    let l = model::gen_line(src, &[], 10, false, false, 8);
                    if !l.stack.is_empty() {
                        break l;
                    }
                };
                let drops = "drop ".repeat(l.stack.len() - 1);
                let v = l.stack[0];
                text += &format!("[{}{} {drops}]{}literal ", ws(src, false), l.tokens.join(" "), ws(src, false));
                expect.push(v);
            }
            3 => {
                let (a, b) = (src.cell(), src.cell());
                text += &format!("[ {a} {b} ] 2literal ");
                expect.extend([a, b]);
            }
            4 => {
                let x = src.small() as f64;
                text += &format!("[ {x}e 2e f* ] fliteral ");
                fexpect.push(x * 2.0);
            }
            _ => {
                // State and base changes in the middle of a definition.
                text += "[ hex ] ff [ decimal ] 10 [ ] + ";
                expect.push(265);
            }
        }
    }
    text += "; t";
    note!(ctx, "{text:?}{}", if forth { " (evaluate-input)" } else { "" });
    let r = if forth { vm.eval_forth(&text) } else { vm.eval(&text) };
    ensure!(r == Ok(()), "exception", "exception {r:?}");
    ensure!(vm.stack() == expect, "stack", "stack {:?}, expected {expect:?}", vm.stack());
    ensure!(vm.fstack() == fexpect, "fstack", "floats {:?}, expected {fexpect:?}", vm.fstack());
    ctx.nontrivial();
    Ok(())
}

/// SAVE-INPUT, RESTORE-INPUT, SOURCE-IDX and SOURCE-IDX! within a line.
fn reread(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = Vm::new();
    let setup = "variable n1 variable n2 variable id1 variable at1 variable id2 variable at2 \
        : mark1 save-input 2 = if at1 ! id1 ! else abort then ; : mark2 save-input 2 = if at2 ! id2 ! else abort then ; \
        : again1 -1 n1 +! n1 @ 0> if id1 @ at1 @ 2 restore-input then ; : again2 -1 n2 +! n2 @ 0> if id2 @ at2 @ 2 restore-input then ;";
    let r = vm.eval(setup);
    ensure!(r == Ok(()), "setup", "{r:?}");
    let mode = src.usize(4);
    let mut lines = vec![];
    let mut expect = String::new();
    for _ in 0..1 + src.usize(3) {
        let mut line = String::new();
        // Text of the words, and its value for each pass.
        fn piece(src: &mut Src, line: &mut String, out: &mut Vec<String>, k: usize, before: usize) {
            for _ in 0..k {
                *line += &ws(src, false);
                match src.usize(6) {
                    0 => {
                        let v = src.cell();
                        *line += &format!("{v} .");
                        out.push(format!("{v} "));
                    }
                    1 => {
                        let t: String = any_text(src, &[')', '\n', '\r'], 6);
                        *line += &format!("( {t})");
                    }
                    2 => {
                        let c = *src.pick(&['a', 'é', '\u{4e2d}', '\u{1f600}']);
                        *line += &format!("char {c} .");
                        out.push(format!("{} ", c as u32));
                    }
                    3 => {
                        *line += "source-idx";
                        out.push(format!("{} ", before + line.len()));
                        *line += " .";
                    }
                    4 => {
                        // Skip the next bytes: those after the token's own separator.
                        let t = format!(" {}", any_text(src, &['\n', '\r'], 5));
                        // The number of digits of the distance is part of the distance.
                        let mut d = 0usize;
                        for _ in 0..3 {
                            d = format!(" {d} + source-idx!").len() + t.len();
                        }
                        *line += "source-idx";
                        *line += &format!(" {d} + source-idx!");
                        *line += &t;
                    }
                    _ => {
                        *line += "\t7 .";
                        out.push("7 ".into());
                    }
                }
            }
        }
        // The lines of a string are one input.
        let before = if mode == 2 { lines.iter().map(|l: &String| l.len() + 1).sum() } else { 0 };
        let (k1, k2) = (1 + src.usize(4), 1 + src.usize(3));
        let n = src.usize(3);
        let mut o = vec![];
        line += &format!("{k1} n1 !");
        piece(src, &mut line, &mut o, n, before);
        expect += &o.concat();
        line += &ws(src, false);
        line += &model::vary_case(src, "mark1");
        let mut pass = vec![];
        let n = src.usize(3);
        piece(src, &mut line, &mut pass, n, before);
        if src.chance(1, 2) {
            line += &format!(" {k2} n2 ! mark2");
            let mut inner = vec![];
            let n = src.usize(3);
            piece(src, &mut line, &mut inner, n, before);
            line += &ws(src, false);
            line += "again2";
            for _ in 0..k2 {
                pass.extend(inner.clone());
            }
            let n = src.usize(2);
            piece(src, &mut line, &mut pass, n, before);
        }
        line += &ws(src, false);
        line += "again1";
        for _ in 0..k1 {
            expect += &pass.concat();
        }
        let n = src.usize(3);
        let mut o = vec![];
        piece(src, &mut line, &mut o, n, before);
        expect += &o.concat();
        note!(ctx, "{line:?}");
        lines.push(line);
        if k1 > 1 {
            ctx.nontrivial();
        }
    }
    let mut r = Ok(());
    let mut out = String::new();
    match mode {
        0 | 1 => {
            for l in &lines {
                r = if mode == 0 { vm.eval(l) } else { vm.eval_forth(l) };
                if r.is_err() {
                    break;
                }
            }
        }
        2 => {
            use rtforth::core::Core;
            use rtforth::loader::HasLoader;
            vm.load_str(&lines.join("\n"));
            if let Some(e) = vm.last_error() {
                r = Err(isize::from(e) as i64);
            }
        }
        _ => {
            let path = ctx.scratch().join("reread.fth");
            std::fs::write(&path, lines.join("\n")).unwrap();
            let _ = crate::capture::take();
            r = vm.eval(&format!("include {}", path.display()));
            out = crate::capture::take().replace('\n', "");
        }
    }
    out += &vm.take_output();
    ensure!(r == Ok(()), "exception", "{r:?} after printing {out:?}");
    ensure!(out == expect, "reread", "printed {out:?}, expected {expect:?}");
    ensure!(vm.stack().is_empty(), "stack", "{:?}", vm.stack());
    // A saved place of another form is refused.
    let n = *src.pick(&[0i64, 1, 3, -2, i64::MIN + 2]);
    let line = format!("0 0 {n} restore-input");
    let r = vm.eval(&line);
    ensure!(r == Err(-1), "exception", "{line}: {r:?}, expected -1");
    Ok(())
}
