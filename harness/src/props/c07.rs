//! C07: compiled control structures against a reference interpreter of structured programs.
use crate::engine::*;
use crate::model::*;
use crate::vm::Vm;

pub fn property() -> Property {
    Property {
        id: "C07",
        rule: "Wide programs have up to 60 OFs, LEAVEs, EXITs, GOTOs to a label or nested IFs, up to 360 labels, 20 nested loops, or bodies of tens of kilobytes, with a result which is computed directly. Random structured programs (literals, integer words, variables, output, IF ELSE THEN, BEGIN UNTIL, BEGIN WHILE REPEAT, BEGIN AGAIN, DO ?DO LOOP +LOOP with I J LEAVE UNLOOP, CASE, EXIT, RECURSE, calls, >R R@ R>, labels with forward and backward GOTO and CALL) are printed as colon definitions, compiled and run; stack, variables, output and return stack depth are compared with a reference interpreter working on the program tree. Programs which exceed the fuel or the stack limits of the reference are discarded. Non-trivial: at least 6 control transfers were executed in at least two kinds of structures.",
        families: vec![
            Family { name: "program", quick: 200_000, thorough: 1_500_000, run: program },
            Family { name: "loops", quick: 150_000, thorough: 800_000, run: loops },
            Family { name: "nest", quick: 120_000, thorough: 400_000, run: nest },
            Family { name: "wide", quick: 20_000, thorough: 200_000, run: wide },
        ],
        probes: vec![],
        assumptions: vec!["I, J, LEAVE, UNLOOP and R@ are used only where the return stack has the loop parameters or value they refer to on top", "programs stay within the stack limits"],
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Rk {
    /// Loop parameters
    L,
    /// Value
    V,
}

#[derive(Debug, Clone)]
enum St {
    Lit(i64),
    Op(&'static str),
    Fetch(usize),
    Store(usize),
    Add(usize),
    Dot,
    Emit(u8),
    Text(String),
    If(Vec<St>, Option<Vec<St>>),
    Until(Vec<St>),
    While(Vec<St>, Vec<St>),
    Again(Vec<St>),
    /// ?, plus, body (plus: leaves the step)
    Do(bool, bool, Vec<St>),
    I,
    J,
    Leave,
    /// Arms: code computing the value, body; default part.
    Case(Vec<(Vec<St>, Vec<St>)>, Vec<St>),
    Exit(Vec<Rk>),
    Recurse,
    Call(usize),
    Sub(usize),
    R(Vec<St>),
    R2(Vec<St>),
    RFetch,
    R2Fetch,
    /// label n: body with breaks to its end.
    Block(usize, Vec<St>),
    Break(usize, Vec<Rk>),
    /// label n: body with jumps back to its start.
    Head(usize, Vec<St>),
    Continue(usize, Vec<Rk>),
    Drop,
}

struct Fun {
    ins: usize,
    outs: usize,
    body: Vec<St>,
    /// Subroutines (indices into subs) which follow the body.
    subs: Vec<usize>,
}

struct Sub {
    label: usize,
    ins: usize,
    outs: usize,
    body: Vec<St>,
}

#[derive(Clone)]
struct Cx {
    r: Vec<Rk>,
    /// Depth at each enclosing loop's body (parallel to the L entries of r).
    bases: Vec<usize>,
    outs: usize,
    me: Option<(usize, usize)>,
    /// label, depth to have, r length, is head
    blocks: Vec<(usize, usize, usize, bool)>,
    nest: usize,
    depth: usize,
    in_sub: bool,
}

struct G<'a> {
    src: &'a mut Src,
    funs: Vec<(usize, usize)>,
    subs: Vec<Sub>,
    fun_subs: Vec<usize>,
    label: usize,
    budget: i64,
    width: usize,
    maxnest: usize,
    counters: usize,
}

const VARS: usize = 5;
const SAFE: &[&str] = &[
    "dup", "drop", "swap", "over", "nip", "tuck", "rot", "-rot", "2dup", "2drop", "2swap", "2over", "+", "-", "*", "1+",
    "1-", "2*", "abs", "negate", "min", "max", "invert", "and", "or", "xor", "=", "<>", "<", ">", "<=", ">=", "0<", "0=",
    "0>", "0<>", "not", "within", "true", "false", "bl", "noop", "cell+", "cells",
];

fn need(op: &str) -> usize {
    INT_OPS.iter().find(|x| x.0 == op).unwrap().1
}

/// Net effect of an operation.
fn net(op: &str) -> i64 {
    let mut s: Vec<i64> = vec![1; 8];
    apply_int(op, &mut s).unwrap();
    s.len() as i64 - 8
}

fn adjust(v: &mut Vec<St>, from: usize, to: usize) {
    for _ in to..from {
        v.push(St::Drop);
    }
    for k in from..to {
        v.push(St::Lit(k as i64 * 3 - 1));
    }
}

impl<'a> G<'a> {
    fn new(src: &'a mut Src, width: usize, maxnest: usize, budget: i64) -> G<'a> {
        let label = 1 + src.usize(900);
        G { src, funs: vec![], subs: vec![], fun_subs: vec![], label, budget, width, maxnest, counters: 0 }
    }
    fn new_label(&mut self) -> usize {
        self.label = if self.label >= 999 { 1 } else { self.label + 1 };
        self.label
    }

    /// Code which leaves a flag or value.
    fn value(&mut self, d: usize, cx: &Cx) -> Vec<St> {
        match self.src.below(7) {
            0 => vec![St::Lit(self.src.range(-1, 1))],
            1 if d > 0 => {
                let c = *self.src.pick(&["=", "<", ">", "<>", "<=", ">=", "and", "xor"]);
                vec![St::Op("dup"), St::Lit(self.src.range(-3, 5)), St::Op(c)]
            }
            2 if d > 1 => {
                let c = *self.src.pick(&["=", "<", ">", "-", "max"]);
                vec![St::Op("2dup"), St::Op(c)]
            }
            3 if cx.r.last() == Some(&Rk::L) => {
                let k = self.src.range(-2, 6);
                let c = *self.src.pick(&["=", "<", ">", "-"]);
                vec![St::I, St::Lit(k), St::Op(c)]
            }
            4 => vec![St::Fetch(self.src.usize(VARS))],
            5 => self.countdown(),
            _ => {
                let k = self.src.small();
                vec![St::Fetch(self.src.usize(VARS)), St::Lit(k), St::Op("<")]
            }
        }
    }

    /// True until a variable has been counted down.
    fn countdown(&mut self) -> Vec<St> {
        let v = self.src.usize(VARS);
        self.counters += 1;
        vec![St::Lit(-1), St::Add(v), St::Fetch(v), St::Op("0>")]
    }

    fn body(&mut self, d: usize, target: usize, n: usize, cx: &Cx) -> Vec<St> {
        let (mut v, e, live) = self.block(d, n, cx);
        if live {
            adjust(&mut v, e, target);
        }
        v
    }

    /// Statements, depth after them and whether their end can be reached.
    fn block(&mut self, d0: usize, n: usize, cx: &Cx) -> (Vec<St>, usize, bool) {
        let mut v = vec![];
        let mut d = d0;
        let k = self.src.usize(n + 1) + (cx.nest < 2) as usize;
        for _ in 0..k {
            if self.budget <= 0 {
                break;
            }
            self.budget -= 1;
            let deep = cx.nest >= self.maxnest;
            let w = if deep { 0 } else { 1 };
            let inner = Cx { nest: cx.nest + 1, ..cx.clone() };
            match self.src.weighted(&[
                6, 9, 3, 3, 4, // 0 literal, op, fetch, store, output
                5 * w, 2 * w, 2 * w, w, 5 * w, // 5 if until while again do
                4, 2, 2, 2 * w, 2, // 10 i j leave case exit
                2, 2, 2 * w, 2, 2 * w, // 15 recurse call r rfetch block
                2, w, w, w, // 20 break head sub r2
            ]) {
                0 => {
                    v.push(St::Lit(if self.src.chance(1, 5) { self.src.cell() } else { self.src.small() }));
                    d += 1;
                }
                1 => {
                    let op = *self.src.pick(SAFE);
                    if need(op) <= d && d < 20 {
                        v.push(St::Op(op));
                        d = (d as i64 + net(op)) as usize;
                    }
                }
                2 => {
                    v.push(St::Fetch(self.src.usize(VARS)));
                    d += 1;
                }
                3 => {
                    if d > 0 {
                        let k = self.src.usize(VARS);
                        v.push(if self.src.chance(1, 2) { St::Store(k) } else { St::Add(k) });
                        d -= 1;
                    }
                }
                4 => match self.src.below(3) {
                    0 if d > 0 => {
                        v.push(St::Dot);
                        d -= 1;
                    }
                    1 => v.push(St::Text(self.src.pick(&["a b", "", "x", "then", "; "]).to_string())),
                    _ => v.push(St::Emit(33 + self.src.below(90) as u8)),
                },
                5 => {
                    v.extend(self.value(d, cx));
                    let with_else = self.src.chance(1, 2);
                    let target = if self.src.chance(1, 3) { d.saturating_sub(1) } else if with_else && self.src.chance(1, 3) { d + 1 } else { d };
                    if with_else {
                        let a = self.body(d, target, self.width, &inner);
                        let b = self.body(d, target, self.width, &inner);
                        v.push(St::If(a, Some(b)));
                        d = target;
                    } else {
                        let a = self.body(d, d, self.width, &inner);
                        v.push(St::If(a, None));
                    }
                }
                6 => {
                    let mut b = self.body(d, d, self.width, &inner);
                    b.extend(self.value(d, cx));
                    if self.src.chance(1, 2) {
                        b.push(St::Op("0="));
                    }
                    v.push(St::Until(b));
                }
                7 => {
                    let mut a = self.body(d, d, self.width, &inner);
                    a.extend(if self.src.chance(2, 3) { self.countdown() } else { self.value(d, cx) });
                    let b = self.body(d, d, self.width, &inner);
                    v.push(St::While(a, b));
                }
                8 => {
                    // Left by EXIT, LEAVE or a jump only; nothing after it is reached.
                    if cx.r.is_empty() || self.src.chance(1, 2) {
                        let mut b = self.body(d, d, self.width, &inner);
                        b.extend(self.countdown());
                        let mut e = vec![];
                        if !cx.blocks.is_empty() && self.src.chance(1, 2) {
                            let bl = self.src.pick(&cx.blocks).clone();
                            adjust(&mut e, d, bl.1);
                            let un = cx.r[bl.2..].to_vec();
                            e.push(if bl.3 { St::Continue(bl.0, un) } else { St::Break(bl.0, un) });
                        } else if cx.r.last() == Some(&Rk::L) && self.src.chance(1, 2) {
                            adjust(&mut e, d, *cx.bases.last().unwrap());
                            e.push(St::Leave);
                        } else {
                            adjust(&mut e, d, cx.outs);
                            e.push(St::Exit(cx.r.clone()));
                        }
                        b.push(St::Op("0="));
                        b.push(St::If(e, None));
                        v.push(St::Again(b));
                        return (v, d, false);
                    }
                }
                9 => {
                    let (code, b) = self.do_loop(d, cx);
                    v.extend(code);
                    v.push(b);
                }
                10 => {
                    if cx.r.last() == Some(&Rk::L) {
                        v.push(St::I);
                        d += 1;
                    }
                }
                11 => {
                    let n = cx.r.len();
                    if n >= 2 && cx.r[n - 1] == Rk::L && cx.r[n - 2] == Rk::L {
                        v.push(St::J);
                        d += 1;
                    }
                }
                12 => {
                    if cx.r.last() == Some(&Rk::L) {
                        let base = *cx.bases.last().unwrap();
                        if self.src.chance(3, 4) {
                            v.extend(self.value(d, cx));
                            let mut e = vec![];
                            adjust(&mut e, d, base);
                            e.push(St::Leave);
                            v.push(St::If(e, None));
                        } else {
                            adjust(&mut v, d, base);
                            v.push(St::Leave);
                            if self.src.chance(1, 2) {
                                return (v, base, false);
                            }
                            d = base;
                        }
                    }
                }
                13 => {
                    if d > 0 {
                        let target = if self.src.chance(1, 4) { d } else { d - 1 };
                        let n = self.src.usize(4);
                        let mut arms = vec![];
                        for _ in 0..n {
                            // The selector is on top.
                            let mut val = if self.src.chance(1, 4) { self.body(d, d, 2, &inner) } else { vec![] };
                            if self.src.chance(3, 4) {
                                val.push(St::Lit(self.src.range(-3, 8)));
                            } else {
                                val.extend(self.value(d, cx));
                            }
                            arms.push((val, self.body(d - 1, target, self.width, &inner)));
                        }
                        // The default part ends with a value ENDCASE drops.
                        let def = self.body(d, target + 1, self.width, &inner);
                        // A small selector.
                        if self.src.chance(2, 3) {
                            v.extend([St::Lit(7), St::Op("and")]);
                        }
                        v.push(St::Case(arms, def));
                        d = target;
                    }
                }
                14 => {
                    let cond = self.src.chance(4, 5);
                    let mut e = vec![];
                    if cond {
                        v.extend(self.value(d, cx));
                        adjust(&mut e, d, cx.outs);
                        e.push(St::Exit(cx.r.clone()));
                        v.push(St::If(e, None));
                    } else {
                        adjust(&mut v, d, cx.outs);
                        v.push(St::Exit(cx.r.clone()));
                        if self.src.chance(1, 2) {
                            return (v, cx.outs, false);
                        }
                        d = cx.outs;
                    }
                }
                15 => {
                    if let Some((ins, outs)) = cx.me {
                        if d >= ins {
                            v.extend(self.countdown());
                            let mut e = vec![St::Recurse];
                            adjust(&mut e, d - ins + outs, d);
                            v.push(St::If(e, None));
                        }
                    }
                }
                16 => {
                    if !self.funs.is_empty() {
                        let k = self.src.usize(self.funs.len());
                        let (i, o) = self.funs[k];
                        if d >= i && d < 20 {
                            v.push(St::Call(k));
                            d = d - i + o;
                        }
                    }
                }
                17 => {
                    if d > 0 {
                        let mut c = inner.clone();
                        c.r.push(Rk::V);
                        let e = self.src.usize(3);
                        let target = (d - 1 + e).saturating_sub(1);
                        let b = self.body(d - 1, target, self.width, &c);
                        v.push(St::R(b));
                        d = target + 1;
                    }
                }
                18 => {
                    if cx.r.last() == Some(&Rk::V) {
                        v.push(St::RFetch);
                        d += 1;
                        if cx.r.len() > 1 && cx.r[cx.r.len() - 2] == Rk::V && self.src.chance(1, 2) {
                            v.push(St::R2Fetch);
                            d += 2;
                        }
                    }
                }
                19 => {
                    let l = self.new_label();
                    let mut c = inner.clone();
                    c.blocks.push((l, d, cx.r.len(), false));
                    let b = self.body(d, d, self.width + 2, &c);
                    v.push(St::Block(l, b));
                }
                20 => {
                    if !cx.blocks.is_empty() {
                        let b = self.src.pick(&cx.blocks).clone();
                        let un = cx.r[b.2..].to_vec();
                        let jump = if b.3 { St::Continue(b.0, un) } else { St::Break(b.0, un) };
                        if self.src.chance(3, 4) || b.3 {
                            v.extend(if b.3 { self.countdown() } else { self.value(d, cx) });
                            let mut e = vec![];
                            adjust(&mut e, d, b.1);
                            e.push(jump);
                            v.push(St::If(e, None));
                        } else {
                            adjust(&mut v, d, b.1);
                            v.push(jump);
                            if self.src.chance(1, 2) {
                                return (v, b.1, false);
                            }
                            d = b.1;
                        }
                    }
                }
                21 => {
                    let l = self.new_label();
                    let mut c = inner.clone();
                    c.blocks.push((l, d, cx.r.len(), true));
                    let b = self.body(d, d, self.width + 2, &c);
                    v.push(St::Head(l, b));
                }
                22 => {
                    // Call of a subroutine at a label: a known one or a new one.
                    let known = !self.subs.is_empty() && self.src.chance(1, 2);
                    let k = if known {
                        self.src.usize(self.subs.len())
                    } else if cx.in_sub {
                        continue;
                    } else {
                        let (ins, outs) = (self.src.usize(3), self.src.usize(3));
                        let label = self.new_label();
                        let c = Cx { r: vec![], bases: vec![], outs, me: None, blocks: vec![], nest: 1, depth: 0, in_sub: true };
                        let body = self.body(ins, outs, self.width, &c);
                        self.subs.push(Sub { label, ins, outs, body });
                        self.fun_subs.push(self.subs.len() - 1);
                        self.subs.len() - 1
                    };
                    let (i, o) = (self.subs[k].ins, self.subs[k].outs);
                    if d >= i && d < 20 {
                        v.push(St::Sub(k));
                        d = d - i + o;
                    }
                }
                _ => {
                    if d > 1 {
                        let mut c = inner.clone();
                        c.r.push(Rk::V);
                        c.r.push(Rk::V);
                        let b = self.body(d - 2, d - 2, self.width, &c);
                        v.push(St::R2(b));
                    }
                }
            }
            if d > 22 {
                adjust(&mut v, d, 6);
                d = 6;
            }
        }
        (v, d, true)
    }

    fn do_loop(&mut self, d: usize, cx: &Cx) -> (Vec<St>, St) {
        let mut v = vec![];
        let q = self.src.chance(1, 3);
        let plus = self.src.chance(2, 5);
        let start = match self.src.below(4) {
            0 => *self.src.pick(&[i64::MAX - 1, i64::MAX, i64::MIN, i64::MIN + 1, -1, -2]),
            1 => self.src.cell(),
            _ => self.src.range(-3, 5),
        };
        let dist = match self.src.weighted(&[8, 2, 1]) {
            0 => self.src.range(if q { 0 } else { 1 }, 5),
            1 => self.src.range(-6, 0),
            _ => self.src.range(-20, 20),
        };
        if d > 0 && self.src.chance(1, 6) {
            v.extend([St::Op("dup"), St::Lit(dist), St::Op("+"), St::Op("over")]);
        } else {
            v.extend([St::Lit(start.wrapping_add(dist)), St::Lit(start)]);
        }
        let mut c = Cx { nest: cx.nest + 1, ..cx.clone() };
        c.r.push(Rk::L);
        c.bases.push(d);
        let mut b = self.body(d, d, self.width, &c);
        if plus {
            match self.src.below(5) {
                0 => b.push(St::I),
                1 if d > 0 => b.push(St::Op("dup")),
                2 => b.push(St::Lit(self.src.cell())),
                _ => {
                    let s = if dist >= 0 { self.src.range(1, 3) } else { self.src.range(-3, -1) };
                    b.push(St::Lit(s));
                }
            }
        }
        (v, St::Do(q, plus, b))
    }

    fn fun(&mut self, n: usize) -> Fun {
        let ins = self.src.usize(4);
        let outs = self.src.usize(4);
        self.fun_subs = vec![];
        let cx = Cx { r: vec![], bases: vec![], outs, me: Some((ins, outs)), blocks: vec![], nest: 0, depth: 0, in_sub: false };
        let body = self.body(ins, outs, n, &cx);
        let subs = std::mem::take(&mut self.fun_subs);
        self.funs.push((ins, outs));
        Fun { ins, outs, body, subs }
    }
}

// ---------------------------------------------------------------- printing

fn unwind(un: &[Rk], o: &mut Vec<String>) {
    for k in un.iter().rev() {
        match k {
            Rk::L => o.push("unloop".into()),
            Rk::V => {
                o.push("r>".into());
                o.push("drop".into());
            }
        }
    }
}

fn show_block(b: &[St], p: &Prog, o: &mut Vec<String>) {
    for s in b {
        show_st(s, p, o)
    }
}

fn show_st(s: &St, p: &Prog, o: &mut Vec<String>) {
    macro_rules! w { ($($x:expr),*) => {{ $( o.push($x.to_string()); )* }} }
    match s {
        St::Lit(n) => w!(n),
        St::Op(x) => w!(x),
        St::Drop => w!("drop"),
        St::Fetch(k) => w!(format!("v{k}"), "@"),
        St::Store(k) => w!(format!("v{k}"), "!"),
        St::Add(k) => w!(format!("v{k}"), "+!"),
        St::Dot => w!("."),
        St::Emit(c) => w!(c, "emit"),
        St::Text(t) => w!(format!(".\" {t}\"")),
        St::If(a, b) => {
            w!("if");
            show_block(a, p, o);
            if let Some(b) = b {
                w!("else");
                show_block(b, p, o);
            }
            w!("then");
        }
        St::Until(b) => {
            w!("begin");
            show_block(b, p, o);
            w!("until");
        }
        St::While(a, b) => {
            w!("begin");
            show_block(a, p, o);
            w!("while");
            show_block(b, p, o);
            w!("repeat");
        }
        St::Again(b) => {
            w!("begin");
            show_block(b, p, o);
            w!("again");
        }
        St::Do(q, plus, b) => {
            w!(if *q { "?do" } else { "do" });
            show_block(b, p, o);
            w!(if *plus { "+loop" } else { "loop" });
        }
        St::I => w!("i"),
        St::J => w!("j"),
        St::Leave => w!("leave"),
        St::Case(arms, def) => {
            w!("case");
            for (v, b) in arms {
                show_block(v, p, o);
                w!("of");
                show_block(b, p, o);
                w!("endof");
            }
            show_block(def, p, o);
            w!("endcase");
        }
        St::Exit(un) => {
            unwind(un, o);
            w!("exit");
        }
        St::Recurse => w!("recurse"),
        St::Call(k) => w!(format!("w{k}")),
        St::Sub(k) => w!("[", p.subs[*k].label, "]", "call"),
        St::R(b) => {
            w!(">r");
            show_block(b, p, o);
            w!("r>");
        }
        St::R2(b) => {
            w!("2>r");
            show_block(b, p, o);
            w!("2r>");
        }
        St::RFetch => w!("r@"),
        St::R2Fetch => w!("2r@"),
        St::Block(l, b) => {
            show_block(b, p, o);
            w!("[", l, "]", "label");
        }
        St::Break(l, un) | St::Continue(l, un) => {
            unwind(un, o);
            w!("[", l, "]", "goto");
        }
        St::Head(l, b) => {
            w!("[", l, "]", "label");
            show_block(b, p, o);
        }
    }
}

struct Prog {
    funs: Vec<Fun>,
    subs: Vec<Sub>,
}

impl Prog {
    fn text(&self, k: usize) -> Vec<String> {
        let f = &self.funs[k];
        let mut o = vec![format!(": w{k}")];
        show_block(&f.body, self, &mut o);
        for &s in &f.subs {
            o.push("exit".into());
            let s = &self.subs[s];
            o.extend(["[".to_string(), s.label.to_string(), "]".into(), "label".into()]);
            show_block(&s.body, self, &mut o);
        }
        o.push(";".into());
        o
    }
}

// ---------------------------------------------------------------- reference interpreter

enum Rv {
    V(i64),
    L { idx: i64, limit: i64 },
}

struct M<'a> {
    p: &'a Prog,
    s: Vec<i64>,
    r: Vec<Rv>,
    vars: Vec<i64>,
    out: String,
    fuel: i64,
    rcells: usize,
    /// The most there were on the return stack.
    most: usize,
    transfers: usize,
    kinds: u32,
}

enum Flow {
    Next,
    Exit,
    Leave,
    Break(usize),
    Continue(usize),
    Stop,
}

impl<'a> M<'a> {
    fn pop(&mut self) -> i64 {
        self.s.pop().expect("model underflow")
    }
    fn took(&mut self, kind: u32) {
        self.transfers += 1;
        self.kinds |= 1 << kind;
    }
    fn unwind(&mut self, un: &[Rk]) {
        for k in un {
            self.r.pop();
            self.rcells -= if *k == Rk::L { 3 } else { 1 };
        }
    }
    fn block(&mut self, b: &[St], me: usize) -> Flow {
        for s in b {
            match self.st(s, me) {
                Flow::Next => {}
                f => return f,
            }
        }
        Flow::Next
    }
    fn call(&mut self, b: &[St], me: usize) -> Flow {
        let (n, c) = (self.r.len(), self.rcells);
        self.rcells += 1;
        self.most = self.most.max(self.rcells);
        if self.rcells > 60 {
            return Flow::Stop;
        }
        let f = self.block(b, me);
        match f {
            Flow::Next | Flow::Exit => {
                assert!(self.r.len() == n && self.rcells == c + 1, "unbalanced return stack in the model");
                self.rcells = c;
                Flow::Next
            }
            Flow::Stop => Flow::Stop,
            _ => panic!("jump out of a definition in the model"),
        }
    }
    fn st(&mut self, st: &St, me: usize) -> Flow {
        self.fuel -= 1;
        if self.fuel <= 0 || self.s.len() > 56 || self.rcells > 60 {
            return Flow::Stop;
        }
        match st {
            St::Lit(n) => self.s.push(*n),
            St::Op(o) => apply_int(o, &mut self.s).unwrap(),
            St::Drop => {
                self.pop();
            }
            St::Fetch(k) => self.s.push(self.vars[*k]),
            St::Store(k) => self.vars[*k] = self.pop(),
            St::Add(k) => self.vars[*k] = self.vars[*k].wrapping_add(self.pop()),
            St::Dot => {
                let v = self.pop();
                self.out.push_str(&format!("{v} "));
            }
            St::Emit(c) => self.out.push(*c as char),
            St::Text(t) => self.out.push_str(t),
            St::If(a, b) => {
                let f = self.pop();
                self.took(0);
                if f != 0 {
                    return self.block(a, me);
                } else if let Some(b) = b {
                    return self.block(b, me);
                }
            }
            St::Until(b) => loop {
                match self.block(b, me) {
                    Flow::Next => {}
                    f => return f,
                }
                self.took(1);
                if self.pop() != 0 {
                    break;
                }
            },
            St::While(a, b) => loop {
                match self.block(a, me) {
                    Flow::Next => {}
                    f => return f,
                }
                self.took(2);
                if self.pop() == 0 {
                    break;
                }
                match self.block(b, me) {
                    Flow::Next => {}
                    f => return f,
                }
            },
            St::Again(b) => loop {
                match self.block(b, me) {
                    Flow::Next => {}
                    f => return f,
                }
                self.took(3);
                self.fuel -= 1;
                if self.fuel <= 0 {
                    return Flow::Stop;
                }
            },
            St::Do(q, plus, b) => {
                let idx = self.pop();
                let limit = self.pop();
                self.took(4);
                if *q && idx == limit {
                    return Flow::Next;
                }
                self.r.push(Rv::L { idx, limit });
                self.rcells += 3;
        self.most = self.most.max(self.rcells);
                loop {
                    self.fuel -= 1;
                    if self.fuel <= 0 {
                        return Flow::Stop;
                    }
                    match self.block(b, me) {
                        Flow::Next => {}
                        Flow::Leave => {
                            self.took(5);
                            break;
                        }
                        f => return f,
                    }
                    self.took(6);
                    let step = if *plus { self.pop() } else { 1 };
                    let Some(Rv::L { idx, limit }) = self.r.last_mut() else { panic!("no loop in the model") };
                    // Distance of the index from the limit on the circle of cells.
                    let pos = idx.wrapping_sub(*limit) as u64 as i128 + step as i128;
                    *idx = idx.wrapping_add(step);
                    if pos < 0 || pos >= 1 << 64 {
                        break;
                    }
                }
                self.r.pop();
                self.rcells -= 3;
            }
            St::I => {
                let Some(Rv::L { idx, .. }) = self.r.last() else { panic!("I outside a loop in the model") };
                self.s.push(*idx);
            }
            St::J => {
                let n = self.r.len();
                let Rv::L { idx, .. } = &self.r[n - 2] else { panic!("J outside loops in the model") };
                self.s.push(*idx);
            }
            St::Leave => return Flow::Leave,
            St::Case(arms, def) => {
                for (v, b) in arms {
                    match self.block(v, me) {
                        Flow::Next => {}
                        f => return f,
                    }
                    let x = self.pop();
                    self.took(7);
                    if *self.s.last().unwrap() == x {
                        self.pop();
                        return self.block(b, me);
                    }
                }
                match self.block(def, me) {
                    Flow::Next => {}
                    f => return f,
                }
                self.took(8);
                self.pop();
            }
            St::Exit(un) => {
                self.unwind(un);
                self.took(9);
                return Flow::Exit;
            }
            St::Recurse => {
                self.took(10);
                let p = self.p;
                return self.call(&p.funs[me].body, me);
            }
            St::Call(k) => {
                self.took(11);
                let p = self.p;
                return self.call(&p.funs[*k].body, *k);
            }
            St::Sub(k) => {
                self.took(12);
                let p = self.p;
                return self.call(&p.subs[*k].body, usize::MAX);
            }
            St::R(b) => {
                let x = self.pop();
                self.r.push(Rv::V(x));
                self.rcells += 1;
        self.most = self.most.max(self.rcells);
                match self.block(b, me) {
                    Flow::Next => {}
                    f => return f,
                }
                let Some(Rv::V(x)) = self.r.pop() else { panic!("R> of a loop in the model") };
                self.rcells -= 1;
                self.s.push(x);
            }
            St::R2(b) => {
                let x = self.pop();
                let y = self.pop();
                self.r.push(Rv::V(y));
                self.r.push(Rv::V(x));
                self.rcells += 2;
        self.most = self.most.max(self.rcells);
                match self.block(b, me) {
                    Flow::Next => {}
                    f => return f,
                }
                let (Some(Rv::V(x)), Some(Rv::V(y))) = (self.r.pop(), self.r.pop()) else { panic!("2R> of a loop in the model") };
                self.rcells -= 2;
                self.s.push(y);
                self.s.push(x);
            }
            St::RFetch => {
                let Some(Rv::V(x)) = self.r.last() else { panic!("R@ of a loop in the model") };
                self.s.push(*x);
            }
            St::R2Fetch => {
                let n = self.r.len();
                let (Rv::V(y), Rv::V(x)) = (&self.r[n - 2], &self.r[n - 1]) else { panic!("2R@ of a loop in the model") };
                self.s.push(*y);
                self.s.push(*x);
            }
            St::Block(l, b) => match self.block(b, me) {
                Flow::Break(k) if k == *l => self.took(13),
                f => return f,
            },
            St::Head(l, b) => loop {
                match self.block(b, me) {
                    Flow::Continue(k) if k == *l => self.took(14),
                    f => return f,
                }
                self.fuel -= 1;
                if self.fuel <= 0 {
                    return Flow::Stop;
                }
            },
            St::Break(l, un) => {
                self.unwind(un);
                return Flow::Break(*l);
            }
            St::Continue(l, un) => {
                self.unwind(un);
                return Flow::Continue(*l);
            }
        }
        Flow::Next
    }
}

// ---------------------------------------------------------------- cases

/// Words used through immediate words which postpone them.
const POSTPONED: &[&str] = &[
    "if", "else", "then", "begin", "until", "while", "repeat", "again", "do", "?do", "loop", "+loop", "leave", "unloop", "i", "j", "case", "of", "endof", "endcase", "exit", "recurse", "call", "label", "goto", ".\"", ">r", "r>", "2>r", "2r>", "r@", "2r@", "+", "dup", "drop",
];

/// Text of tokens, possibly in several lines and varying case.
fn layout(src: &mut Src, toks: &[String]) -> Vec<String> {
    let multi = src.chance(1, 4);
    let case = src.chance(1, 5);
    let mut lines = vec![];
    let mut line = String::new();
    for t in toks {
        if multi && src.chance(1, 6) {
            lines.push(std::mem::take(&mut line));
        }
        if !line.is_empty() {
            line.push(' ');
        }
        if case && !t.contains('"') {
            line.push_str(&vary_case(src, t));
        } else {
            line.push_str(t);
        }
    }
    lines.push(line);
    lines
}

fn run_prog(src: &mut Src, ctx: &mut Ctx, p: &Prog, inits: &[i64], calls: &[(usize, Vec<i64>)]) -> R {
    // Reference results first.
    let mut m = M { p, s: vec![], r: vec![], vars: inits.to_vec(), out: String::new(), fuel: 12_000, rcells: 2, most: 2, transfers: 0, kinds: 0 };
    let mut want = vec![];
    let mut done = 0;
    for (k, args) in calls {
        m.s.extend(args);
        match m.call(&p.funs[*k].body, *k) {
            Flow::Stop => break,
            _ => {}
        }
        want.push((m.s.clone(), m.vars.clone(), std::mem::take(&mut m.out)));
        done += 1;
        if m.s.len() > 20 {
            break;
        }
    }
    if done == 0 {
        ctx.label("discarded");
        return Ok(());
    }
    if m.transfers >= 6 && m.kinds.count_ones() >= 2 {
        ctx.nontrivial();
    }
    for (i, n) in ["if", "until", "while", "again", "do", "leave", "loop", "case", "endcase", "exit", "recurse", "call", "subroutine", "goto forward", "goto back"].iter().enumerate() {
        if m.kinds & (1 << i) != 0 {
            ctx.label(n);
        }
    }
    // How many calls deep the words run: at most until the return stack is full.
    let room = 63 - m.most;
    let deep = match src.below(6) {
        0 => src.usize(room + 1),
        1 => room,
        _ => 0,
    };
    if deep > 0 {
        ctx.label("called deep");
    }
    let mut vm = Vm::new();
    let mut lines = vec![];
    for (k, v) in inits.iter().enumerate() {
        lines.push(format!("variable v{k} {v} v{k} !"));
    }
    lines.push("0labels".into());
    // Some of the words may come from user-defined compiling words.
    let level = if src.chance(1, 6) { 1 + src.usize(2) } else { 0 };
    if level > 0 {
        ctx.label("postponed");
        let mut l = String::new();
        for w in POSTPONED {
            l += &format!(": m-{w} postpone {w} ; immediate ");
            if level > 1 {
                l += &format!(": mm-{w} postpone m-{w} ; immediate ");
            }
        }
        lines.push(l);
    }
    let older = src.chance(1, 6);
    if older {
        ctx.label("redefined");
    }
    for k in 0..p.funs.len() {
        let mut text = p.text(k);
        if level > 0 {
            for t in text.iter_mut() {
                let first = t.split(' ').next().unwrap();
                if POSTPONED.contains(&first) && src.chance(2, 3) {
                    *t = format!("{}{t}", if src.usize(level) == 1 { "mm-" } else { "m-" });
                }
            }
        }
        // Seldom there is an older word of that name, which is not meant by RECURSE.
        if older {
            lines.push(format!(": w{k} {} abort ;", src.small()));
        }
        lines.extend(layout(src, &text));
        if deep > 0 {
            lines.push(format!(": deep{k} ?dup if 1- recurse else w{k} then ;"));
        }
    }
    let forth = src.chance(1, 4);
    for l in &lines {
        note!(ctx, "{}", l);
        let r = if forth { vm.eval_forth(l) } else { vm.eval(l) };
        ensure!(r.is_ok(), "rejected", "{l}: exception {r:?}");
    }
    let s = vm.stack();
    ensure!(s.is_empty(), "compile", "the stack after compiling is {}", show(&s));
    let _ = vm.take_output();
    for (n, (k, args)) in calls.iter().take(done).enumerate() {
        let a: Vec<String> = args.iter().map(|x| x.to_string()).collect();
        let line = if deep > 0 { format!("{} {} deep{k}", a.join(" "), deep - 1) } else { format!("{} w{k}", a.join(" ")) };
        note!(ctx, "{}", line);
        let r = if forth { vm.eval_forth(&line) } else { vm.eval(&line) };
        let (ws, wv, wo) = &want[n];
        ensure!(r.is_ok(), "exception", "{line}: exception {r:?} but the program ends normally");
        let s = vm.stack();
        ensure!(&s == ws, "stack", "{line}: stack {} expected {}", show(&s), show(ws));
        let o = vm.take_output();
        ensure!(&o == wo, "output", "{line}: output {o:?} expected {wo:?}");
        for (i, v) in wv.iter().enumerate() {
            let xt = vm.xt(&format!("v{i}")).unwrap();
            vm.push(xt as i64);
            let _ = vm.eval(">body @");
            let got = vm.stack().last().copied();
            ensure!(got == Some(*v), "memory", "{line}: variable v{i} is {got:?} expected {v}");
            let _ = vm.eval("drop");
        }
        ensure!(vm.rdepth() == 0, "return stack", "{line}: {} items are left on the return stack", vm.rdepth());
    }
    Ok(())
}

fn build(src: &mut Src, width: usize, nest: usize, budget: i64, nfun: usize, size: usize) -> (Prog, Vec<i64>, Vec<(usize, Vec<i64>)>) {
    let mut g = G::new(src, width, nest, budget);
    let mut funs = vec![];
    for _ in 0..nfun {
        g.budget = budget;
        funs.push(g.fun(size));
    }
    let subs = std::mem::take(&mut g.subs);
    let src = g.src;
    let inits: Vec<i64> = (0..VARS).map(|_| src.range(0, 6)).collect();
    let n = 1 + src.usize(3);
    let last = funs.len() - 1;
    let calls = (0..n)
        .map(|i| {
            let k = if i == 0 { last } else { src.usize(funs.len()) };
            (k, (0..funs[k].ins).map(|_| if src.chance(1, 6) { src.cell() } else { src.range(-3, 8) }).collect())
        })
        .collect();
    (Prog { funs, subs }, inits, calls)
}

fn program(src: &mut Src, ctx: &mut Ctx) -> R {
    let nfun = 1 + src.usize(3);
    let budget = if src.chance(1, 8) { 120 } else { 40 };
    let (p, inits, calls) = build(src, 5, 5, budget, nfun, 8);
    run_prog(src, ctx, &p, &inits, &calls)
}

/// Deeply nested structures.
fn nest(src: &mut Src, ctx: &mut Ctx) -> R {
    let (p, inits, calls) = build(src, 3, 14, 90, 1, 4);
    run_prog(src, ctx, &p, &inits, &calls)
}

/// One or two nested DO loops with all kinds of bounds and steps.
fn loops(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut g = G::new(src, 3, 3, 10);
    let cx = Cx { r: vec![], bases: vec![], outs: 0, me: None, blocks: vec![], nest: 1, depth: 0, in_sub: true };
    let q = g.src.chance(1, 3);
    let plus = g.src.chance(2, 3);
    let start = g.src.cell();
    let (dist, step) = match g.src.below(6) {
        0 => (g.src.range(0, 20), g.src.range(1, 4)),
        1 => (g.src.range(-20, 0), g.src.range(-4, -1)),
        2 => {
            // Few big steps.
            let s = g.src.cell();
            (s.wrapping_mul(g.src.range(0, 6)).wrapping_add(g.src.range(-2, 2)), s)
        }
        3 => (g.src.cell(), *g.src.pick(&[i64::MAX, i64::MIN, i64::MAX / 3, i64::MIN / 3, 1 << 62, -(1 << 62), 1 << 60])),
        4 => (g.src.cell(), g.src.cell()),
        _ => (g.src.range(-3, 3), g.src.range(-3, 3)),
    };
    let mut body = vec![St::I, St::Dot];
    let inner = Cx { r: vec![Rk::L], bases: vec![0], outs: 0, nest: 2, ..cx.clone() };
    if g.src.chance(1, 2) {
        let (code, b) = g.do_loop(0, &inner);
        body.extend(code);
        let St::Do(q, plus, mut b) = b else { unreachable!() };
        let mut c = vec![St::J, St::Dot, St::I, St::Dot];
        c.append(&mut b);
        body.push(St::Do(q, plus, c));
    }
    // Bound the number of iterations.
    body.extend(vec![St::Lit(-1), St::Add(0), St::Fetch(0), St::Op("0="), St::If(vec![St::Leave], None)]);
    if plus {
        body.push(St::Lit(step));
    }
    let main = vec![St::Lit(start.wrapping_add(dist)), St::Lit(start), St::Do(q, plus, body), St::Lit(5)];
    let subs = std::mem::take(&mut g.subs);
    if !subs.is_empty() {
        return Ok(());
    }
    let src = g.src;
    let p = Prog { funs: vec![Fun { ins: 0, outs: 1, body: main, subs: vec![] }], subs };
    let mut inits = vec![1 + src.range(0, 40)];
    for _ in 1..VARS {
        inits.push(src.range(0, 3));
    }
    run_prog(src, ctx, &p, &inits, &[(0, vec![])])
}

/// A program without output: its lines and the calls to make.
pub fn silent(src: &mut Src) -> Option<(Vec<String>, Vec<(String, Vec<i64>)>)> {
    let nfun = 1 + src.usize(3);
    let (mut p, inits, calls) = build(src, 5, 5, 40, nfun, 8);
    for f in p.funs.iter_mut() {
        silence(&mut f.body);
    }
    for f in p.subs.iter_mut() {
        silence(&mut f.body);
    }
    // Only programs which end.
    let mut m = M { p: &p, s: vec![], r: vec![], vars: inits.clone(), out: String::new(), fuel: 12_000, rcells: 2, most: 2, transfers: 0, kinds: 0 };
    let mut ok = vec![];
    for (k, args) in &calls {
        m.s.extend(args);
        if let Flow::Stop = m.call(&p.funs[*k].body, *k) {
            break;
        }
        ok.push((format!("w{}", k), args.clone()));
        if m.s.len() > 20 {
            break;
        }
    }
    if ok.is_empty() {
        return None;
    }
    let mut lines: Vec<String> = inits.iter().enumerate().map(|(k, v)| format!("variable v{k} {v} v{k} !")).collect();
    lines.push("0labels".into());
    for k in 0..p.funs.len() {
        lines.push(p.text(k).join(" "));
    }
    Some((lines, ok))
}

fn silence(v: &mut Vec<St>) {
    for s in v.iter_mut() {
        match s {
            St::Dot => *s = St::Drop,
            St::Emit(_) | St::Text(_) => *s = St::Op("noop"),
            St::If(a, b) => {
                silence(a);
                if let Some(b) = b {
                    silence(b);
                }
            }
            St::Until(a) | St::Again(a) | St::Do(_, _, a) | St::R(a) | St::R2(a) | St::Block(_, a) | St::Head(_, a) => silence(a),
            St::While(a, b) => {
                silence(a);
                silence(b);
            }
            St::Case(arms, d) => {
                for (a, b) in arms {
                    silence(a);
                    silence(b);
                }
                silence(d);
            }
            _ => {}
        }
    }
}

/// Few structures with very many parts or very large ones: the result is computed directly.
fn wide(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = Vm::big(64);
    let mut lines: Vec<String> = vec!["0labels".into()];
    // The calls: arguments and the stack they leave.
    let mut calls: Vec<(Vec<i64>, Vec<i64>)> = vec![];
    let size = match src.below(3) {
        0 => 1 + src.usize(8),
        1 => 1 + src.usize(60),
        _ => 40 + src.usize(20),
    };
    // Code which does nothing, up to some ten thousand bytes of it.
    fn filler(src: &mut Src) -> String {
        let n = match src.below(4) {
            0 => 0,
            1 => src.usize(20),
            2 => src.usize(300),
            _ => src.usize(2800),
        };
        "1 drop ".repeat(n)
    }
    fn labels(src: &mut Src, n: usize) -> Vec<i64> {
        // Different labels from 1 to 999.
        let start = src.range(1, 999);
        let step = *src.pick(&[1i64, 7, 100, 500, 998, 64]);
        let mut out: Vec<i64> = vec![];
        let mut l = start;
        while out.len() < n {
            while out.contains(&l) {
                l = l % 999 + 1;
            }
            out.push(l);
            l = (l + step - 1) % 999 + 1;
        }
        out
    }
    let mut keys: Vec<i64> = vec![];
    for k in 0..size {
        let mut x = if src.chance(1, 8) { src.cell() } else { src.range(-60, 60) };
        while keys.contains(&x) {
            x = x.wrapping_add(k as i64 + 1);
        }
        keys.push(x);
    }
    let others: Vec<i64> = (0..4).map(|_| if src.chance(1, 3) { src.cell() } else { src.range(-70, 70) }).collect();
    match src.below(9) {
        0 => {
            ctx.label("case");
            let big = src.chance(1, 8);
            let mut t = format!(": t {} case ", filler(src));
            for (k, x) in keys.iter().enumerate() {
                if big && src.chance(1, 30) {
                    t += &filler(src);
                }
                t += &format!("{x} of {} endof ", k as i64 * 3 - 5);
            }
            t += "-77 swap endcase 5 ;";
            lines.push(t);
            for x in keys.iter().chain(&others) {
                let want = keys.iter().position(|k| k == x).map_or(-77, |k| k as i64 * 3 - 5);
                calls.push((vec![9, *x], vec![9, want, 5]));
            }
        }
        1 => {
            ctx.label("goto forward");
            let l = labels(src, 1)[0];
            let mut t = String::from(": t 0 swap ");
            for x in &keys {
                t += &format!("dup {x} = if [ {l} ] goto then swap 1+ swap ");
            }
            t += &format!("{} [ {l} ] label drop 5 ;", filler(src));
            lines.push(t);
            for x in keys.iter().chain(&others) {
                let n = keys.iter().position(|k| k == x).unwrap_or(size) as i64;
                calls.push((vec![9, *x], vec![9, n, 5]));
            }
        }
        2 => {
            ctx.label("goto back");
            // Counts down and goes back from one of many places.
            let l = labels(src, 1)[0];
            let mut t = format!(": t 0 swap [ {l} ] label swap 1+ swap dup 0= if drop 5 exit then 1- {} ", filler(src));
            for k in 0..size {
                t += &format!("dup {size} mod {k} = if swap {k} + swap [ {l} ] goto then ");
            }
            t += ";";
            lines.push(t);
            let n = src.range(0, 90);
            let sum: i64 = (0..n).map(|v| v % size as i64).sum();
            calls.push((vec![n], vec![n + 1 + sum, 5]));
        }
        3 => {
            ctx.label("labels");
            let n = if src.chance(1, 3) { 60 + src.usize(300) } else { size };
            let ls = labels(src, n + 1);
            let mut order: Vec<usize> = (0..n).collect();
            for i in (1..n).rev() {
                order.swap(i, src.usize(i + 1));
            }
            let mut t = format!(": t 0 [ {} ] goto ", ls[0]);
            for k in order {
                t += &format!("[ {} ] label 31 * {k} + [ {} ] goto ", ls[k], ls[k + 1]);
            }
            t += &format!("[ {} ] label 5 ;", ls[n]);
            lines.push(t);
            let h = (0..n).fold(0i64, |h, k| h.wrapping_mul(31).wrapping_add(k as i64));
            calls.push((vec![], vec![h, 5]));
        }
        4 => {
            ctx.label("leave");
            let n = src.range(1, 90);
            let plus = src.chance(1, 3);
            let mut t = format!(": t 0 {n} 0 do {} ", filler(src));
            for x in &keys {
                t += &format!("i {x} = if leave then 1+ ");
            }
            t += if plus { "1 +loop 5 ;" } else { "loop 5 ;" };
            lines.push(t);
            let mut c = 0;
            'o: for i in 0..n {
                for x in &keys {
                    if *x == i {
                        break 'o;
                    }
                    c += 1;
                }
            }
            calls.push((vec![], vec![c, 5]));
        }
        5 => {
            ctx.label("if");
            let deep = size.min(60);
            let mut t = String::from(": t ");
            for k in 0..deep {
                t += &format!("dup {k} > if ");
            }
            t += "drop 1000 ";
            for k in (0..deep).rev() {
                if src.chance(1, 20) {
                    t += &filler(src);
                }
                t += &format!("else drop {} then ", -(k as i64));
            }
            t += "5 ;";
            lines.push(t);
            for x in [0, 1, deep as i64 - 1, deep as i64, deep as i64 + 1, src.range(-2, 62)] {
                let want = if x > deep as i64 - 1 { 1000 } else { -x.max(0) };
                calls.push((vec![x], vec![want, 5]));
            }
        }
        6 => {
            ctx.label("large bodies");
            let (f, g, h) = (filler(src), filler(src), filler(src));
            let n = src.range(1, 5);
            let (t, c) = match src.below(8) {
                0 => (format!(": t if {f} 11 else {g} 22 then {h} ;"), vec![(vec![0], vec![22]), (vec![n], vec![11])]),
                1 => (format!(": t 0 swap 0 do {f} 1+ loop {g} ;"), vec![(vec![n], vec![n])]),
                2 => (format!(": t 0 swap 0 ?do {f} i + {g} loop {h} ;"), vec![(vec![n], vec![n * (n - 1) / 2]), (vec![0], vec![0])]),
                3 => (format!(": t 0 begin {f} 1+ 2dup > {g} 0= until {h} nip ;"), vec![(vec![n], vec![n])]),
                4 => (format!(": t 0 swap begin {f} dup while {g} 1- swap 2 + swap repeat {h} ;"), vec![(vec![n], vec![2 * n, 0]), (vec![0], vec![0, 0])]),
                5 => (format!(": t begin {f} dup 0= if {g} exit then 1- {h} again ;"), vec![(vec![n], vec![0])]),
                6 => (format!(": t dup if {f} 1- recurse {g} 1+ else {h} 40 + then ;"), vec![(vec![n], vec![40 + n])]),
                _ => (format!(": t 0 swap 0 do {f} i 3 = if {g} leave {h} then 1+ 1 +loop ;"), vec![(vec![n], vec![n.min(3)])]),
            };
            lines.push(t);
            calls = c;
        }
        7 => {
            ctx.label("nested loops");
            let deep = 1 + src.usize(20);
            let mut t = String::from(": t 0 ");
            let mut want = 1;
            let mut starts = vec![];
            for k in 0..deep {
                let times = if want < 200 { src.range(1, 3) } else { 1 };
                let start = src.range(-3, 3);
                starts.push(start);
                want *= times;
                t += &format!("{} {start} do ", start + times);
                if k + 1 == deep {
                    t += "1+ ";
                }
            }
            t += &"loop ".repeat(deep);
            t += "5 ;";
            lines.push(t);
            calls.push((vec![], vec![want, 5]));
        }
        _ => {
            ctx.label("exits");
            let mut t = String::from(": t 0 swap ");
            for x in &keys {
                t += &format!("dup {x} = if drop exit then swap 1+ swap ");
            }
            t += &format!("{} drop 5 ;", filler(src));
            lines.push(t);
            for x in keys.iter().chain(&others) {
                match keys.iter().position(|k| k == x) {
                    Some(n) => calls.push((vec![9, *x], vec![9, n as i64])),
                    None => calls.push((vec![9, *x], vec![9, size as i64, 5])),
                }
            }
        }
    }
    ctx.nontrivial();
    let forth = src.chance(1, 4);
    for l in &lines {
        note!(ctx, "{}", l.replace(&"1 drop ".repeat(21), "1 drop (x21) "));
        let r = if forth { vm.eval_forth(l) } else { vm.eval(l) };
        ensure!(r.is_ok(), "rejected", "exception {r:?}");
    }
    let s = vm.stack();
    ensure!(s.is_empty() && vm.cdepth() == 0, "compile", "the stack after compiling is {}", show(&s));
    for (args, want) in calls {
        let line = format!("{} t", args.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        let r = if forth { vm.eval_forth(&line) } else { vm.eval(&line) };
        ensure!(r.is_ok(), "exception", "{line}: exception {r:?} but the program ends normally");
        let s = vm.stack();
        ensure!(s == want, "stack", "{line}: stack {} expected {}", show(&s), show(&want));
        ensure!(vm.rdepth() == 0, "return stack", "{line}: {} items are left on the return stack", vm.rdepth());
        vm.clear();
    }
    Ok(())
}
