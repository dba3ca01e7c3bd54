//! C18: a colon definition is accepted if and only if its control structure words nest.
use crate::engine::*;
use crate::model::*;
use crate::vm::Vm;
use std::collections::BTreeSet;

pub fn property() -> Property {
    Property {
        id: "C18",
        rule: "Colon definitions are drawn as derivations of the grammar of control structures (up to 64 open structures), mutated by 0..3 deletions, insertions, replacements, swaps and truncations of control words, and as sequences of LABEL GOTO CALL with numbers inside and outside 1..999; they are spread over lines and evaluated by the host's loop or by evaluate-input in one machine, one after another. A recogniser of the grammar written for this check decides acceptance and the exception; after each definition the meaning of its name and a fixed well-formed definition are tested, accepted label programs are run against a reference interpreter. Compile-only words are interpreted in all contexts. Non-trivial: a definition with at least 4 control words (3 label words), or a compile-only word interpreted.",
        families: vec![
            Family { name: "structure", quick: 320_000, thorough: 3_000_000, run: structure },
            Family { name: "labels", quick: 250_000, thorough: 2_000_000, run: labels },
            Family { name: "compile-only", quick: 100_000, thorough: 600_000, run: compile_only },
        ],
        probes: vec![],
        assumptions: vec!["0LABELS is used only where no reference to a label waits for its definition", "there are no more than 64 open structures except where their overflow is meant"],
    }
}

/// What the recogniser keeps for an open structure.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Open {
    If,
    Else,
    Begin,
    While,
    Do,
    Case,
    Of,
    Endof,
}

/// Recogniser of the grammar. None: the words read so far are no prefix of a well-formed definition.
fn step(open: &mut Vec<Open>, w: &str) -> bool {
    use Open::*;
    let top = open.last().copied();
    let ok = match w {
        "if" => {
            open.push(If);
            true
        }
        "begin" => {
            open.push(Begin);
            true
        }
        "do" | "?do" => {
            open.push(Do);
            true
        }
        "case" => {
            open.push(Case);
            true
        }
        "else" => {
            if top == Some(If) {
                *open.last_mut().unwrap() = Else;
                true
            } else {
                false
            }
        }
        "then" => {
            let ok = matches!(top, Some(If) | Some(Else));
            open.pop();
            ok
        }
        "until" | "again" => {
            let ok = top == Some(Begin);
            open.pop();
            ok
        }
        "while" => {
            let ok = top == Some(Begin);
            open.push(While);
            ok
        }
        "repeat" => {
            let ok = top == Some(While) && open.len() >= 2 && open[open.len() - 2] == Begin;
            open.pop();
            open.pop();
            ok
        }
        "loop" | "+loop" => {
            let ok = top == Some(Do);
            open.pop();
            ok
        }
        "of" => {
            let ok = matches!(top, Some(Case) | Some(Endof));
            open.push(Of);
            ok
        }
        "endof" => {
            if top == Some(Of) {
                *open.last_mut().unwrap() = Endof;
                true
            } else {
                false
            }
        }
        "endcase" => {
            while open.last() == Some(&Endof) {
                open.pop();
            }
            let ok = open.last() == Some(&Case);
            open.pop();
            ok
        }
        "leave" => open.contains(&Do),
        _ => true,
    };
    ok && open.len() <= 64
}

const CONTROL: &[&str] = &[
    "if", "else", "then", "begin", "while", "repeat", "until", "again", "do", "?do", "loop", "+loop", "case", "of", "endof",
    "endcase", "leave",
];

/// Is the definition with these words well-formed?
fn well_formed(words: &[String]) -> bool {
    let mut open = vec![];
    for w in words {
        let l = w.to_ascii_lowercase();
        if CONTROL.contains(&l.as_str()) && !step(&mut open, &l) {
            return false;
        }
    }
    open.is_empty()
}

fn filler(src: &mut Src, out: &mut Vec<String>, in_do: bool) {
    for _ in 0..src.usize(3) {
        let w = match src.below(16) {
            0 => "1",
            1 => "dup",
            2 => "drop",
            3 => "+",
            4 => "swap",
            5 => "exit",
            6 => "recurse",
            7 => "[ 1 drop ]",
            8 => "[char] x",
            9 => "['] dup",
            10 => "s\" if then\"",
            11 => ".\" begin\"",
            12 => "( do loop )",
            13 => "1e",
            14 => "postpone dup",
            _ => "negate",
        };
        out.push(w.to_string());
    }
    if in_do && src.chance(1, 3) {
        out.push("leave".into());
    }
}

/// A derivation of the grammar with at most `room` open structures.
fn derive(src: &mut Src, out: &mut Vec<String>, budget: &mut i64, room: usize, in_do: bool) {
    let n = if src.chance(1, 2) { 1 } else { src.usize(4) };
    filler(src, out, in_do);
    for _ in 0..n {
        if *budget <= 0 || room == 0 {
            break;
        }
        *budget -= 1;
        let mut w = |out: &mut Vec<String>, s: &str| out.push(s.to_string());
        match src.below(8) {
            0 => {
                w(out, "if");
                derive(src, out, budget, room - 1, in_do);
                out.push("then".into());
            }
            1 => {
                w(out, "if");
                derive(src, out, budget, room - 1, in_do);
                out.push("else".into());
                derive(src, out, budget, room - 1, in_do);
                out.push("then".into());
            }
            2 => {
                w(out, "begin");
                derive(src, out, budget, room - 1, in_do);
                out.push(if src.chance(1, 2) { "until" } else { "again" }.into());
            }
            3 if room >= 2 => {
                w(out, "begin");
                derive(src, out, budget, room - 1, in_do);
                out.push("while".into());
                derive(src, out, budget, room - 2, in_do);
                out.push("repeat".into());
            }
            4 | 5 => {
                w(out, if src.chance(1, 2) { "do" } else { "?do" });
                derive(src, out, budget, room - 1, true);
                out.push(if src.chance(1, 2) { "loop" } else { "+loop" }.into());
            }
            6 => {
                w(out, "case");
                let arms = if room < 2 { 0 } else { src.usize((room - 1).min(4)) };
                for k in 0..arms {
                    filler(src, out, in_do);
                    out.push("of".into());
                    derive(src, out, budget, room - 2 - k, in_do);
                    out.push("endof".into());
                }
                if src.chance(1, 2) {
                    derive(src, out, budget, room - 1 - arms, in_do);
                }
                out.push("endcase".into());
            }
            _ => {
                // A tower of one or a few kinds of structures.
                let h = 1 + src.usize(room.min(*budget as usize + 8));
                let mut close = vec![];
                let kind = src.below(4);
                let mut d = in_do;
                let mut used = 0;
                for _ in 0..h {
                    let k = if kind == 3 { src.below(3) } else { kind };
                    match k {
                        0 => {
                            out.push("if".into());
                            close.push("then");
                        }
                        1 => {
                            out.push("begin".into());
                            close.push("until");
                        }
                        _ => {
                            out.push("do".into());
                            close.push("loop");
                            d = true;
                        }
                    }
                    used += 1;
                }
                if room > used {
                    *budget -= 1;
                    derive(src, out, budget, room - used, d);
                }
                while let Some(c) = close.pop() {
                    out.push(c.into());
                }
            }
        }
        filler(src, out, in_do);
    }
}

fn mutate(src: &mut Src, v: &mut Vec<String>) {
    let n = match src.below(10) {
        0..=2 => 0,
        3..=6 => 1,
        7 | 8 => 2,
        _ => 3,
    };
    for _ in 0..n {
        let at: Vec<usize> = (0..v.len()).filter(|i| CONTROL.contains(&v[*i].as_str())).collect();
        match src.below(7) {
            0 | 1 if !at.is_empty() => {
                let i = *src.pick(&at);
                v.remove(i);
            }
            2 | 3 => {
                let i = src.usize(v.len() + 1);
                let w = src.pick(CONTROL).to_string();
                v.insert(i, w);
            }
            4 if !at.is_empty() => {
                let i = *src.pick(&at);
                v[i] = src.pick(CONTROL).to_string();
            }
            5 if at.len() >= 2 => {
                let k = src.usize(at.len() - 1);
                let j = if src.chance(1, 2) { at[k + 1] } else { *src.pick(&at) };
                v.swap(at[k], j);
            }
            6 if !at.is_empty() => {
                let i = *src.pick(&at);
                v.truncate(i);
            }
            _ => {}
        }
    }
}

/// How a definition is given to the machine.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Loop {
    Host,
    Forth,
}

fn feed(vm: &mut Vm, lp: Loop, line: &str) -> Result<(), i64> {
    match lp {
        Loop::Host => vm.eval(line),
        Loop::Forth => vm.eval_forth(line),
    }
}

/// Evaluates the tokens spread over lines. Returns the exception and the index of the token which was reached.
fn feed_tokens(src: &mut Src, vm: &mut Vm, ctx: &mut Ctx, lp: Loop, toks: &[String]) -> Result<(), i64> {
    let style = src.below(3);
    let mut i = 0;
    while i < toks.len() {
        let n = match style {
            0 => toks.len(),
            1 => 1,
            _ => 1 + src.usize(6),
        };
        let j = (i + n).min(toks.len());
        let mut line = String::new();
        for t in &toks[i..j] {
            if !line.is_empty() {
                line.push(' ');
            }
            line.push_str(t);
        }
        note!(ctx, "{:?} {}", lp, line);
        feed(vm, lp, &line)?;
        i = j;
    }
    Ok(())
}

/// A definition after a rejection or acceptance must compile and run correctly.
fn sane(src: &mut Src, vm: &mut Vm, ctx: &mut Ctx, lp: Loop, with_labels: bool) -> R {
    let n = src.range(-3, 8);
    let m = 1 + src.usize(999);
    let mut text = String::from(": sane ");
    if with_labels {
        text += &format!("0labels dup 0 < if [ {} ] goto then ", m);
    } else {
        text += "dup 0 < if exit then ";
    }
    text += "0 swap 0 ?do i 3 = if leave then i + loop begin dup 100 < while case 3 of 300 endof 1 of 200 endof 1000 swap endcase repeat";
    if with_labels {
        text += &format!(" [ {} ] label", m);
    }
    text += " ;";
    note!(ctx, "{:?} {}", lp, text);
    if let Err(e) = feed(vm, lp, &text) {
        return fail("later definition", format!("a well-formed definition after the others raised {}: {}", e, text));
    }
    let line = format!("{} sane", n);
    let want = if n < 0 {
        vec![n]
    } else {
        let s: i64 = (0..n.min(3)).sum();
        match s {
            3 => vec![300],
            1 => vec![200],
            _ => vec![1000],
        }
    };
    let r = feed(vm, lp, &line);
    let got = vm.stack();
    ensure!(r.is_ok() && got == want, "later definition", "{} gave {:?} {:?}, expected {:?}: {}", line, r, got, want, text);
    vm.clear();
    Ok(())
}

/// What a name denotes.
#[derive(Clone, Debug)]
enum Meaning {
    None,
    /// Leaves this value.
    Value(i64),
    /// An accepted definition that was not made to be run.
    Code,
}

fn check_name(vm: &mut Vm, name: &str, m: &Meaning) -> R {
    match m {
        Meaning::None => {
            let r = vm.eval(name);
            ensure!(r == Err(-13), "name of a rejected definition", "{} after its definition was rejected gave {:?}, expected -13", name, r);
            vm.host_reset();
        }
        Meaning::Value(v) => {
            let r = vm.eval(name);
            let s = vm.stack();
            ensure!(r.is_ok() && s == vec![*v], "previous meaning", "{} gave {:?} {:?}, expected {}", name, r, s, v);
            vm.clear();
        }
        Meaning::Code => {
            ensure!(vm.xt(name).is_some(), "accepted name", "{} was accepted but is not found", name);
        }
    }
    Ok(())
}

fn structure(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = Vm::new();
    let lp = if src.chance(1, 3) { Loop::Forth } else { Loop::Host };
    let mut meaning: Vec<(String, Meaning)> = vec![];
    let n = 1 + src.usize(4);
    for k in 0..n {
        // The name: new, or one which has a meaning already.
        let i = if !meaning.is_empty() && src.chance(1, 2) {
            src.usize(meaning.len())
        } else {
            let name = format!("w{}", k);
            let m = if src.chance(1, 2) {
                let v = src.range(-9, 99);
                let line = if src.chance(1, 2) { format!("{} constant {}", v, name) } else { format!(": {} {} ;", name, v) };
                note!(ctx, "{}", line);
                if let Err(e) = vm.eval(&line) {
                    return fail("later definition", format!("{:?} raised {}", line, e));
                }
                Meaning::Value(v)
            } else {
                Meaning::None
            };
            meaning.push((name, m));
            meaning.len() - 1
        };
        let name = meaning[i].0.clone();
        let mut body = vec![];
        let deep = src.chance(1, 6);
        if deep {
            // Around the limit of open structures.
            let h = 60 + src.usize(8);
            let mut close = vec![];
            let kind = src.below(3);
            let mut left = h;
            while left > 0 {
                match if kind == 2 { src.below(4) } else { kind } {
                    0 => {
                        body.push("if".to_string());
                        close.push(vec!["then"]);
                        left -= 1;
                    }
                    1 => {
                        body.push("do".to_string());
                        close.push(vec!["loop"]);
                        left -= 1;
                    }
                    2 if left >= 2 => {
                        body.push("begin".into());
                        body.push("while".into());
                        close.push(vec!["repeat"]);
                        left -= 2;
                    }
                    _ => {
                        let arms = src.usize(left.min(20));
                        body.push("case".into());
                        for _ in 0..arms {
                            body.push("of".into());
                            body.push("endof".into());
                        }
                        close.push(vec!["endcase"]);
                        left -= arms + 1;
                    }
                }
            }
            filler(src, &mut body, false);
            while let Some(c) = close.pop() {
                body.extend(c.iter().map(|x| x.to_string()));
            }
            if src.chance(1, 3) {
                mutate(src, &mut body);
            }
        } else {
            let mut budget = *src.pick(&[2, 4, 8, 16]);
            derive(src, &mut body, &mut budget, 64, false);
            mutate(src, &mut body);
        }
        let good = well_formed(&body);
        let controls = body.iter().filter(|w| CONTROL.contains(&w.as_str())).count();
        if controls >= 4 {
            ctx.nontrivial();
        }
        ctx.label(if good { "well-formed" } else { "malformed" });
        if deep {
            ctx.label("around the limit of open structures");
        }
        let mut toks = vec![format!(": {}", name)];
        for w in &body {
            toks.push(if CONTROL.contains(&w.as_str()) { vary_case(src, w) } else { w.clone() });
        }
        // What follows on the same line must not be executed after a rejection.
        toks.push("; 77".into());
        let r = feed_tokens(src, &mut vm, ctx, lp, &toks);
        if good {
            ensure!(r.is_ok(), "well-formed definition rejected", "{} raised {:?}", body.join(" "), r);
            let s = vm.stack();
            ensure!(s == vec![77] && !vm.is_compiling() && vm.cdepth() == 0, "state after ;", "stack {:?}, compiling {}, {} open structures", s, vm.is_compiling(), vm.cdepth());
            vm.clear();
            meaning[i].1 = Meaning::Code;
        } else {
            ensure!(r.is_err(), "malformed definition accepted", "{} was accepted", body.join(" "));
            ensure!(r == Err(-22), "exception of a malformed definition", "{} raised {:?}, expected -22", body.join(" "), r);
            let s = vm.stack();
            ensure!(!s.contains(&77), "executed after the rejection", "stack {:?}", s);
            vm.host_reset();
            ensure!(!vm.is_compiling() && vm.stack().is_empty() && vm.cdepth() == 0, "state after the rejection", "compiling {}, stack {:?}, {} open structures", vm.is_compiling(), vm.stack(), vm.cdepth());
        }
        for (nm, m) in &meaning {
            check_name(&mut vm, nm, m)?;
        }
        if src.chance(1, 2) {
            let l = src.chance(1, 2);
            sane(src, &mut vm, ctx, lp, l)?;
        }
    }
    vm.take_output();
    Ok(())
}

#[derive(Clone, Debug, PartialEq)]
enum Lt {
    Ev(i64),
    /// Branch on the next scripted flag.
    CondGoto(i64),
    CondExit,
    Label(i64),
    Goto(i64),
    Call(i64),
    Exit,
    Clear,
    Open(&'static str),
}

thread_local! {
    static FLAGS: std::cell::RefCell<Vec<bool>> = std::cell::RefCell::new(vec![]);
    static EVENTS: std::cell::RefCell<Vec<i64>> = std::cell::RefCell::new(vec![]);
}

fn host_flag(vm: &mut Vm) {
    let f = FLAGS.with(|f| f.borrow_mut().pop().unwrap_or(false));
    vm.push(if f { -1 } else { 0 });
}

fn host_ev(vm: &mut Vm) {
    use rtforth::core::Core;
    let v = vm.s_stack().pop();
    EVENTS.with(|e| e.borrow_mut().push(v as i64));
}

/// Runs a label program. None: it takes too long or nests too deep.
fn run_labels(body: &[Lt], labels: &std::collections::BTreeMap<i64, usize>, flags: &[bool]) -> Option<Vec<i64>> {
    let mut fl = flags.to_vec();
    let mut ev = vec![];
    let mut ret: Vec<usize> = vec![];
    let mut pc = 0;
    for _ in 0..400 {
        let out = |ret: &mut Vec<usize>| ret.pop();
        if pc >= body.len() {
            match out(&mut ret) {
                Some(p) => {
                    pc = p;
                    continue;
                }
                None => return Some(ev),
            }
        }
        match &body[pc] {
            Lt::Ev(n) => ev.push(*n),
            Lt::CondGoto(l) => {
                if fl.pop().unwrap_or(false) {
                    pc = labels[l];
                    continue;
                }
            }
            Lt::CondExit => {
                if fl.pop().unwrap_or(false) {
                    match ret.pop() {
                        Some(p) => {
                            pc = p;
                            continue;
                        }
                        None => return Some(ev),
                    }
                }
            }
            Lt::Goto(l) => {
                pc = labels[l];
                continue;
            }
            Lt::Call(l) => {
                if ret.len() >= 50 {
                    return None;
                }
                ret.push(pc + 1);
                pc = labels[l];
                continue;
            }
            Lt::Exit => match ret.pop() {
                Some(p) => {
                    pc = p;
                    continue;
                }
                None => return Some(ev),
            },
            _ => {}
        }
        pc += 1;
    }
    None
}

fn labels(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = Vm::new();
    vm.add_host_word("flag", host_flag);
    vm.add_host_word("ev", host_ev);
    let lp = if src.chance(1, 3) { Loop::Forth } else { Loop::Host };
    // Labels which are defined since the last 0LABELS.
    let mut defined: BTreeSet<i64> = BTreeSet::new();
    let mut failed = false;
    let base = *src.pick(&[1i64, 5, 30, 60, 63, 64, 120, 500, 990, 995]);
    let n = 1 + src.usize(4);
    let mut meaning: Vec<(String, Meaning)> = vec![];
    for k in 0..n {
        let name = if k > 0 && src.chance(1, 3) { meaning[src.usize(meaning.len())].0.clone() } else { format!("w{}", k) };
        let i = match meaning.iter().position(|m| m.0 == name) {
            Some(i) => i,
            None => {
                let m = if src.chance(1, 2) {
                    let v = src.range(-9, 99);
                    if let Err(e) = vm.eval(&format!("{} constant {}", v, name)) {
                        return fail("later definition", format!("{} constant raised {}", v, e));
                    }
                    Meaning::Value(v)
                } else {
                    Meaning::None
                };
                meaning.push((name.clone(), m));
                meaning.len() - 1
            }
        };
        let mut body: Vec<Lt> = vec![];
        if failed || k == 0 || src.chance(2, 3) {
            body.push(Lt::Clear);
        }
        failed = false;
        // A well-formed program: blocks of code in which all labels are used and defined.
        let mut names: Vec<i64> = (0..1 + src.usize(5)).map(|j| base + j as i64 * *src.pick(&[1i64, 1, 1, 32, 64])).filter(|x| *x <= 999).collect();
        names.sort();
        names.dedup();
        let starts_clear = body.first() == Some(&Lt::Clear);
        if !starts_clear {
            names.retain(|x| !defined.contains(x));
        }
        let len = 2 + src.usize(14);
        let mut places: Vec<(usize, i64)> = names.iter().map(|l| (src.usize(len + 1), *l)).collect();
        places.sort();
        for p in 0..=len {
            for (q, l) in &places {
                if *q == p {
                    body.push(Lt::Label(*l));
                }
            }
            if p == len {
                break;
            }
            let t = match src.below(9) {
                0..=2 => Lt::Ev(src.range(0, 99)),
                3 | 4 if !names.is_empty() => Lt::CondGoto(*src.pick(&names)),
                5 if !names.is_empty() => Lt::Goto(*src.pick(&names)),
                6 if !names.is_empty() => Lt::Call(*src.pick(&names)),
                7 => Lt::CondExit,
                8 => Lt::Exit,
                _ => Lt::Ev(1000 + src.range(0, 9)),
            };
            body.push(t);
        }
        // Damage it.
        let damage = src.below(8);
        let mut note_damage = "";
        match damage {
            0 => {
                let at: Vec<usize> = (0..body.len()).filter(|j| matches!(body[*j], Lt::Label(_))).collect();
                if !at.is_empty() {
                    let j = *src.pick(&at);
                    body.remove(j);
                    note_damage = "label removed";
                }
            }
            1 => {
                let at: Vec<usize> = (0..body.len()).filter(|j| matches!(body[*j], Lt::Label(_))).collect();
                if !at.is_empty() {
                    let l = body[*src.pick(&at)].clone();
                    let j = (starts_clear as usize) + src.usize(body.len() + 1 - starts_clear as usize);
                    body.insert(j, l);
                    note_damage = "label twice";
                }
            }
            2 => {
                let bad = *src.pick(&[0i64, 1000, 1001, -1, i64::MIN, i64::MAX, 1 << 32, (1 << 32) + 5, 4096, 1 << 53]);
                let j = (starts_clear as usize) + src.usize(body.len() + 1 - starts_clear as usize);
                let t = match src.below(4) {
                    0 => Lt::Label(bad),
                    1 => Lt::Goto(bad),
                    2 => Lt::CondGoto(bad),
                    _ => Lt::Call(bad),
                };
                body.insert(j, t);
                note_damage = "label out of range";
            }
            3 => {
                let j = (starts_clear as usize) + src.usize(body.len() + 1 - starts_clear as usize);
                let l = *src.pick(&[1i64, 2, 63, 64, 65, 998, 999]);
                let t = match src.below(3) {
                    0 => Lt::Goto(l),
                    1 => Lt::CondGoto(l),
                    _ => Lt::Call(l),
                };
                body.insert(j, t);
                note_damage = "another label used";
            }
            4 => {
                let j = (starts_clear as usize) + src.usize(body.len() + 1 - starts_clear as usize);
                body.insert(j, Lt::Open(src.pick(CONTROL)));
                note_damage = "control word added";
            }
            _ => {}
        }
        // Decide.
        let mut open = vec![];
        let mut waiting: BTreeSet<i64> = BTreeSet::new();
        let mut expect: Option<i64> = None;
        let mut at: std::collections::BTreeMap<i64, usize> = Default::default();
        for (p, t) in body.iter().enumerate() {
            match t {
                Lt::Clear => {
                    defined.clear();
                }
                Lt::Label(l) => {
                    if !(1..=999).contains(l) || defined.contains(l) {
                        expect = Some(-24);
                        break;
                    }
                    waiting.remove(l);
                    defined.insert(*l);
                    at.insert(*l, p);
                }
                Lt::Goto(l) | Lt::Call(l) | Lt::CondGoto(l) => {
                    if !(1..=999).contains(l) {
                        expect = Some(-24);
                        break;
                    }
                    if !defined.contains(l) {
                        waiting.insert(*l);
                    }
                }
                Lt::Open(w) => {
                    if !step(&mut open, w) {
                        expect = Some(-22);
                        // A WHILE is only checked by what closes it.
                        if *w != "while" {
                            break;
                        }
                    }
                }
                _ => {}
            }
        }
        if expect.is_none() && (!open.is_empty() || !waiting.is_empty()) {
            expect = Some(-22);
        }
        // A later -24 may come first when the -22 is left to the end.
        let either = expect == Some(-22) && body.contains(&Lt::Open("while"));
        let uses = body.iter().filter(|t| matches!(t, Lt::Label(_) | Lt::Goto(_) | Lt::Call(_) | Lt::CondGoto(_))).count();
        if uses >= 3 {
            ctx.nontrivial();
        }
        let mut toks = vec![format!(": {}", name)];
        for t in &body {
            toks.push(match t {
                Lt::Ev(n) => format!("{} ev", n),
                Lt::CondGoto(l) => format!("flag if [ {} ] {} then", l, vary_case(src, "goto")),
                Lt::CondExit => "flag if exit then".to_string(),
                Lt::Label(l) => format!("[ {} ] {}", l, vary_case(src, "label")),
                Lt::Goto(l) => format!("[ {} ] {}", l, vary_case(src, "goto")),
                Lt::Call(l) => format!("[ {} ] {}", l, vary_case(src, "call")),
                Lt::Exit => "exit".into(),
                Lt::Clear => "0labels".into(),
                Lt::Open(w) => w.to_string(),
            });
        }
        toks.push(";".into());
        note!(ctx, "damage: {:?}", note_damage);
        let r = feed_tokens(src, &mut vm, ctx, lp, &toks);
        match expect {
            None => {
                ctx.label("label program accepted");
                ensure!(r.is_ok(), "well-formed definition rejected", "{} raised {:?}", toks.join(" "), r);
                meaning[i].1 = Meaning::Code;
                vm.clear();
                // Labels of earlier definitions may be referred to: only programs of their own are run.
                let own = body.iter().all(|t| match t {
                    Lt::Goto(l) | Lt::Call(l) | Lt::CondGoto(l) => at.contains_key(l),
                    Lt::Open(_) => false,
                    _ => true,
                });
                if own {
                    for _ in 0..2 {
                        let flags: Vec<bool> = (0..12).map(|_| src.chance(1, 2)).collect();
                        if let Some(want) = run_labels(&body, &at, &flags) {
                            ctx.label("label program run");
                            FLAGS.with(|f| *f.borrow_mut() = flags.clone());
                            EVENTS.with(|e| e.borrow_mut().clear());
                            let r = feed(&mut vm, lp, &name);
                            let got = EVENTS.with(|e| e.borrow().clone());
                            ensure!(r.is_ok() && got == want && vm.stack().is_empty(), "label program", "{} gave {:?} {:?} stack {:?}, expected {:?}, flags {:?}", toks.join(" "), r, got, vm.stack(), want, flags);
                        }
                    }
                }
            }
            Some(e) => {
                failed = true;
                ctx.label(if e == -24 { "label number rejected" } else { "malformed" });
                ensure!(r.is_err(), "malformed definition accepted", "{} was accepted, expected {}", toks.join(" "), e);
                ensure!(r == Err(e) || (either && r == Err(-24)), "exception of a malformed definition", "{} raised {:?}, expected {}", toks.join(" "), r, e);
                vm.host_reset();
            }
        }
        for (nm, m) in &meaning {
            check_name(&mut vm, nm, m)?;
        }
        if src.chance(1, 3) {
            let l = src.chance(1, 2);
            sane(src, &mut vm, ctx, lp, l)?;
            if l {
                defined.clear();
                failed = true;
            }
        }
    }
    Ok(())
}

/// The words of the manuals which have no interpretation semantics.
const COMPILE_ONLY: &[&str] = &[
    "exit", "if", "else", "then", "case", "of", "endof", "endcase", "begin", "while", "repeat", "until", "again", "do", "?do",
    "loop", "+loop", "leave", "unloop", "i", "j", ">r", "r>", "r@", "2>r", "2r>", "2r@", "recurse", "label", "goto", "call",
    "postpone", "does>", "literal", "2literal", "fliteral", "[']", "[char]", ";", "s\"", ".\"", "compile,", "pause", "activate",
    "lit", "flit", "branch", "0branch",
];

fn compile_only(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = Vm::new();
    let lp = if src.chance(1, 3) { Loop::Forth } else { Loop::Host };
    // Words made compile-only by the user.
    let mut own: Vec<String> = vec![];
    let mut meaning: Vec<(String, Meaning)> = vec![];
    let n = 2 + src.usize(5);
    for k in 0..n {
        match src.below(6) {
            0 => {
                let name = format!("own{}", k);
                let line = match src.below(5) {
                    0 => format!(": {} 5 ; compile-only", name),
                    1 => format!("5 constant {} compile-only", name),
                    2 => format!("variable {} compile-only", name),
                    3 => format!(": {} 5 ; immediate compile-only", name),
                    _ => format!(": {} 5 ; compile-only immediate", name),
                };
                note!(ctx, "{:?} {}", lp, line);
                let r = feed(&mut vm, lp, &line);
                ensure!(r.is_ok(), "compile-only", "{} raised {:?}", line, r);
                own.push(name);
            }
            1 | 2 => {
                // Interpreted outside a definition, with something before and after it.
                let w = if !own.is_empty() && src.chance(1, 3) { src.pick(&own).clone() } else { src.pick(COMPILE_ONLY).to_string() };
                let w = vary_case(src, &w);
                let pre: Vec<String> = (0..src.usize(5)).map(|_| src.range(1, 9).to_string()).collect();
                let f = if src.chance(1, 4) { "1e " } else { "" };
                let line = format!("{} {}{} 77 marked !", pre.join(" "), f, w);
                note!(ctx, "{:?} {}", lp, line);
                let r0 = vm.eval("variable marked 0 marked !");
                ensure!(r0.is_ok(), "later definition", "variable raised {:?}", r0);
                let here = vm.here();
                let rd = vm.rdepth();
                let r = feed(&mut vm, lp, &line);
                ctx.nontrivial();
                ctx.label("interpreted");
                ensure!(r == Err(-14), "compile-only word interpreted", "{} raised {:?}, expected -14", line, r);
                let out = vm.take_output();
                let _ = out;
                vm.host_reset();
                ensure!(!vm.is_compiling(), "state after the rejection", "compiling after {}", line);
                ensure!(vm.rdepth() == rd || lp == Loop::Forth, "state after the rejection", "{} left {} items on the return stack", line, vm.rdepth());
                ensure!(vm.here() == here, "compile-only word had an effect", "{} changed HERE by {}", line, vm.here() as i64 - here as i64);
                let r = vm.eval("marked @");
                let s = vm.stack();
                ensure!(r.is_ok() && s == vec![0], "executed after the rejection", "{:?} {:?}", r, s);
                vm.clear();
            }
            3 => {
                // Interpreted between [ and ] : the definition is given up.
                let name = if !meaning.is_empty() && src.chance(1, 2) { src.pick(&meaning).0.clone() } else { format!("w{}", k) };
                let i = match meaning.iter().position(|m| m.0 == name) {
                    Some(i) => i,
                    None => {
                        meaning.push((name.clone(), Meaning::None));
                        meaning.len() - 1
                    }
                };
                let w = src.pick(COMPILE_ONLY).to_string();
                let pre = *src.pick(&["", "1 if 2 ", "begin dup while ", "do ", "case 1 of ", "0labels [ 4 ] goto "]);
                let line = format!(": {} {}[ {} ] 5 ;", name, pre, w);
                note!(ctx, "{:?} {}", lp, line);
                let r = feed(&mut vm, lp, &line);
                ctx.nontrivial();
                ctx.label("interpreted in a definition");
                ensure!(r == Err(-14), "compile-only word interpreted", "{} raised {:?}, expected -14", line, r);
                vm.host_reset();
                let m = meaning[i].1.clone();
                check_name(&mut vm, &name, &m)?;
            }
            4 => {
                // Compile-only words of the user compiled.
                if let Some(w) = own.last().cloned() {
                    let name = format!("w{}", k);
                    let line = format!(": {} {} drop 6 ;", name, w);
                    note!(ctx, "{:?} {}", lp, line);
                    let r = feed(&mut vm, lp, &line);
                    // An immediate word leaves its value while compiling.
                    vm.clear();
                    ensure!(r.is_ok(), "compile-only word compiled", "{} raised {:?}", line, r);
                    ctx.label("compile-only word compiled");
                }
            }
            _ => {
                // Other ways to fail: an undefined word, a missing name, the end of the text.
                let name = if !meaning.is_empty() && src.chance(1, 2) { src.pick(&meaning).0.clone() } else { format!("w{}", k) };
                let i = match meaning.iter().position(|m| m.0 == name) {
                    Some(i) => i,
                    None => {
                        let v = src.range(1, 50);
                        let r = vm.eval(&format!("{} constant {}", v, name));
                        ensure!(r.is_ok(), "later definition", "constant raised {:?}", r);
                        meaning.push((name.clone(), Meaning::Value(v)));
                        meaning.len() - 1
                    }
                };
                let pre = *src.pick(&["", "1 if 2 ", "begin dup while ", "do ", "case 1 of ", "0labels [ 4 ] goto ", "1 2 3 "]);
                let (bad, e) = *src.pick(&[
                    ("nosuchword", -13),
                    ("1x", -13),
                    ("postpone nosuchword", -13),
                    ("['] nosuchword", -13),
                    ("[ drop ]", -4),
                    ("[ fdrop ]", -45),
                    ("[ 1 0 / ]", -10),
                    ("[ abort ]", -1),
                    ("[ 0 @ ]", -9),
                ]);
                // The Forth loop itself has one item, which the definition must not take.
                let lp = if bad == "[ drop ]" { Loop::Host } else { lp };
                let line = format!(": {} {}{} 5 ;", name, pre, bad);
                note!(ctx, "{:?} {}", lp, line);
                let r = feed(&mut vm, lp, &line);
                ctx.label("other error in a definition");
                ensure!(r == Err(e), "error in a definition", "{} raised {:?}, expected {}", line, r, e);
                vm.host_reset();
                ensure!(!vm.is_compiling() && vm.cdepth() == 0, "state after the rejection", "compiling {}", vm.is_compiling());
                let m = meaning[i].1.clone();
                check_name(&mut vm, &name, &m)?;
            }
        }
        if src.chance(1, 3) {
            let l = src.chance(1, 2);
            sane(src, &mut vm, ctx, lp, l)?;
        }
    }
    Ok(())
}
