//! C09: the multitasker against a simulator of coroutines scheduled round-robin.
use crate::engine::*;
use crate::model::*;
use crate::vm::Vm;

pub fn property() -> Property {
    Property {
        id: "C09",
        rule: "Random sets of tasks (up to five) whose code mixes stack, float, return stack, loop, call, output and shared variable operations with PAUSE, ACTIVATE, SUSPEND, RESUME, STOP, HALT, GET and RELEASE at any nesting, driven by lines of the main task. Output, shared variables, awake flags and all stacks of all tasks are compared after every line with a simulator that schedules coroutines cyclically. Task numbers that are none (0, negative, above 5, near multiples of 2^8, 2^32 and 2^64) must raise -24 and change nothing. Schedules in which no task is awake are discarded. Non-trivial: at least three tasks ran and at least ten task switches happened.",
        families: vec![
            Family { name: "tasks", quick: 300_000, thorough: 4_000_000, run: tasks },
            Family { name: "facility", quick: 200_000, thorough: 2_400_000, run: facility },
            Family { name: "numbers", quick: 60_000, thorough: 600_000, run: numbers },
        ],
        probes: vec![],
        assumptions: vec!["a task does not ACTIVATE itself and does not return from its ACTIVATE definition", "some task is always awake"],
    }
}

#[derive(Debug, Clone)]
enum St {
    Lit(i64),
    Op(&'static str),
    Fetch(usize),
    Add(usize),
    Put(usize),
    Print,
    Me,
    Text(char),
    Pause,
    Times(i64, Vec<St>),
    I,
    If(Vec<St>, Vec<St>),
    R(Vec<St>),
    RFetch,
    Call(usize),
    Start(usize),
    Suspend(usize),
    Resume(usize),
    Stop,
    Halt(usize),
    Get(usize),
    Release(usize),
    FLit(i64),
    FAdd,
    FDot,
    Drop,
}

#[derive(Debug, Clone)]
enum In {
    Lit(i64),
    Op(&'static str),
    Fetch(usize),
    Add(usize),
    Put(usize),
    Print,
    Me,
    Text(char),
    Pause,
    Do(i64),
    Loop(usize),
    I,
    Jz(usize),
    Jmp(usize),
    ToR,
    FromR,
    RFetch,
    Call(usize),
    Start(usize),
    Suspend(usize),
    Resume(usize),
    Halt(usize),
    Get(usize),
    Try(usize),
    Release(usize),
    FLit(i64),
    FAdd,
    FDot,
    Ret,
}

struct Word {
    name: String,
    /// Task it is activated in (0 for a plain word).
    task: usize,
    body: Vec<St>,
    code: Vec<In>,
    /// How the code of a task ends: for ever pausing or stopping.
    stops: bool,
}

fn flat(b: &[St], o: &mut Vec<In>) {
    for s in b {
        match s {
            St::Lit(n) => o.push(In::Lit(*n)),
            St::Op(x) => o.push(In::Op(x)),
            St::Drop => o.push(In::Op("drop")),
            St::Fetch(v) => o.push(In::Fetch(*v)),
            St::Add(v) => o.push(In::Add(*v)),
            St::Put(v) => o.push(In::Put(*v)),
            St::Print => o.push(In::Print),
            St::Me => o.push(In::Me),
            St::Text(c) => o.push(In::Text(*c)),
            St::Pause => o.push(In::Pause),
            St::Times(n, b) => {
                o.push(In::Do(*n));
                let at = o.len();
                flat(b, o);
                o.push(In::Loop(at));
            }
            St::I => o.push(In::I),
            St::If(a, b) => {
                let at = o.len();
                o.push(In::Jz(0));
                flat(a, o);
                let j = o.len();
                o.push(In::Jmp(0));
                o[at] = In::Jz(o.len());
                flat(b, o);
                o[j] = In::Jmp(o.len());
            }
            St::R(b) => {
                o.push(In::ToR);
                flat(b, o);
                o.push(In::FromR);
            }
            St::RFetch => o.push(In::RFetch),
            St::Call(w) => o.push(In::Call(*w)),
            St::Start(w) => o.push(In::Start(*w)),
            St::Suspend(n) => o.push(In::Suspend(*n)),
            St::Resume(n) => o.push(In::Resume(*n)),
            St::Stop => {
                o.push(In::Suspend(0));
                o.push(In::Pause);
            }
            St::Halt(n) => o.push(In::Halt(*n)),
            St::Get(f) => {
                o.push(In::Get(*f));
                o.push(In::Try(*f));
            }
            St::Release(f) => o.push(In::Release(*f)),
            St::FLit(n) => o.push(In::FLit(*n)),
            St::FAdd => o.push(In::FAdd),
            St::FDot => o.push(In::FDot),
        }
    }
}

fn text(b: &[St], words: &[Word], o: &mut String) {
    for s in b {
        let t = match s {
            St::Lit(n) => n.to_string(),
            St::Op(x) => x.to_string(),
            St::Drop => "drop".into(),
            St::Fetch(v) => format!("v{v} @"),
            St::Add(v) => format!("v{v} +!"),
            St::Put(v) => format!("v{v} !"),
            St::Print => ".".into(),
            St::Me => "me .".into(),
            St::Text(c) => format!("[char] {c} emit"),
            St::Pause => "pause".into(),
            St::Times(n, b) => {
                o.push_str(&format!("{n} 0 do "));
                text(b, words, o);
                "loop".into()
            }
            St::I => "i".into(),
            St::If(a, b) => {
                o.push_str("if ");
                text(a, words, o);
                o.push_str("else ");
                text(b, words, o);
                "then".into()
            }
            St::R(b) => {
                o.push_str(">r ");
                text(b, words, o);
                "r>".into()
            }
            St::RFetch => "r@".into(),
            St::Call(w) | St::Start(w) => words[*w].name.clone(),
            St::Suspend(n) => format!("{n} suspend"),
            St::Resume(n) => format!("{n} resume"),
            St::Stop => "stop".into(),
            St::Halt(n) => format!("{n} halt"),
            St::Get(f) => format!("f{f} get"),
            St::Release(f) => format!("f{f} release"),
            St::FLit(n) => format!("{n}e"),
            St::FAdd => "f+".into(),
            St::FDot => "f.".into(),
        };
        o.push_str(&t);
        o.push(' ');
    }
}

const NV: usize = 3;
const NF: usize = 2;

struct G<'a> {
    src: &'a mut Src,
    words: Vec<Word>,
    sigs: Vec<(usize, usize)>,
    starts: Vec<usize>,
    facility: bool,
    budget: i64,
}

#[derive(Clone)]
struct Cx {
    top: char,
    nest: usize,
    /// The task which runs it (0 for any).
    task: usize,
    main: bool,
}

impl<'a> G<'a> {
    fn block(&mut self, mut d: usize, f0: usize, n: usize, cx: &Cx, ft: &mut usize) -> (Vec<St>, usize) {
        let mut v = vec![];
        let mut f = f0;
        let deep = cx.nest > 3;
        let w = if deep { 0 } else { 2 };
        let fw = if self.facility { 6 } else { 1 };
        for _ in 0..self.src.usize(n + 1) {
            if self.budget <= 0 {
                break;
            }
            self.budget -= 1;
            let inner = Cx { nest: cx.nest + 1, ..cx.clone() };
            match self.src.weighted(&[3, 4, 2, 2, 3, 3, 9, w, 2, w, w, 1, 3, 2, 2, 2, 1, 1, fw, fw, 1, 1]) {
                0 => {
                    v.push(St::Lit(self.src.small()));
                    d += 1;
                }
                1 => {
                    let op = *self.src.pick(&["dup", "swap", "over", "+", "-", "1+", "drop", "rot", "max", "xor"]);
                    let need = INT_OPS.iter().find(|x| x.0 == op).unwrap().1;
                    if need <= d && d < 10 {
                        let mut s = vec![1i64; 8];
                        apply_int(op, &mut s).unwrap();
                        v.push(St::Op(op));
                        d = d + s.len() - 8;
                    }
                }
                2 => {
                    v.push(St::Fetch(self.src.usize(NV)));
                    d += 1;
                }
                3 => {
                    if d > 0 {
                        let k = self.src.usize(NV);
                        v.push(if self.src.chance(1, 2) { St::Add(k) } else { St::Put(k) });
                        d -= 1;
                    }
                }
                4 => {
                    if d > 0 && self.src.chance(1, 2) {
                        v.push(St::Print);
                        d -= 1;
                    } else {
                        v.push(St::Text((b'A' + self.src.below(26) as u8) as char));
                    }
                }
                5 => v.push(St::Me),
                6 => v.push(St::Pause),
                7 => {
                    let c = Cx { top: 'L', ..inner };
                    let (mut b, e) = self.block(d, f, 5, &c, ft);
                    fit(&mut b, e, d);
                    // The float stack stays as it is in loops.
                    for _ in f..*ft {
                        b.push(St::FDot);
                    }
                    for _ in *ft..f {
                        b.push(St::FLit(1));
                    }
                    *ft = f;
                    v.push(St::Times(self.src.range(1, 4), b));
                }
                8 => {
                    if cx.top == 'L' {
                        v.push(St::I);
                        d += 1;
                    } else if cx.top == 'R' {
                        v.push(St::RFetch);
                        d += 1;
                    }
                }
                9 => {
                    if d > 0 {
                        let c = Cx { top: cx.top, ..inner };
                        let mut fa = f;
                        let (mut a, e) = self.block(d - 1, f, 4, &c, &mut fa);
                        fit(&mut a, e, d - 1);
                        let mut fb = f;
                        let (mut b, e) = self.block(d - 1, f, 3, &c, &mut fb);
                        fit(&mut b, e, d - 1);
                        for _ in f..fa { a.push(St::FDot); }
                        for _ in f..fb { b.push(St::FDot); }
                        for _ in fa..f { a.push(St::FLit(2)); }
                        for _ in fb..f { b.push(St::FLit(3)); }
                        v.push(St::If(a, b));
                        d -= 1;
                    }
                }
                10 => {
                    if d > 0 {
                        let c = Cx { top: 'R', ..inner };
                        let (mut b, e) = self.block(d - 1, f, 4, &c, ft);
                        f = *ft;
                        fit(&mut b, e, d - 1);
                        v.push(St::R(b));
                    }
                }
                11 => {
                    if !self.sigs.is_empty() {
                        let k = self.src.usize(self.sigs.len());
                        let (i, o) = self.sigs[k];
                        if d >= i && d < 10 {
                            v.push(St::Call(k));
                            d = d - i + o;
                        }
                    }
                }
                12 => {
                    if !self.starts.is_empty() {
                        let k = *self.src.pick(&self.starts);
                        // A plain word may run in any task: it does not activate.
                        if cx.task != 0 && self.words[k].task != cx.task {
                            v.push(St::Start(k));
                        }
                    }
                }
                13 => {
                    let n = 1 + self.src.usize(5);
                    // The main task is not suspended by others all the time.
                    if n != 1 || self.src.chance(1, 3) {
                        v.push(St::Suspend(n));
                    }
                }
                14 => v.push(St::Resume(1 + self.src.usize(5))),
                15 => v.push(St::Resume(1)),
                16 => {
                    if !cx.main || self.src.chance(1, 3) {
                        v.push(St::Stop);
                    }
                }
                17 => {
                    let n = 2 + self.src.usize(4);
                    if cx.task != 0 && n != cx.task {
                        v.push(St::Halt(n));
                    }
                }
                18 => {
                    let k = self.src.usize(NF);
                    v.push(St::Get(k));
                    if self.src.chance(2, 3) {
                        let (b, e) = self.block(d, f, 4, &Cx { nest: cx.nest + 1, ..cx.clone() }, ft);
                        f = *ft;
                        d = e;
                        v.push(St::Me);
                        v.extend(b);
                        v.push(St::Me);
                        v.push(St::Release(k));
                    }
                }
                19 => v.push(St::Release(self.src.usize(NF))),
                20 => {
                    v.push(St::FLit(self.src.range(-5, 9)));
                    f += 1;
                }
                _ => {
                    if f > 1 {
                        v.push(St::FAdd);
                        f -= 1;
                    } else if f > 0 {
                        v.push(St::FDot);
                        f -= 1;
                    }
                }
            }
            *ft = f;
            if d > 8 {
                fit(&mut v, d, 2);
                d = 2;
            }
        }
        *ft = f;
        (v, d)
    }
}

/// Items `b` needs on the return stack.
fn rmax(b: &[St], words: &[Word]) -> usize {
    b.iter()
        .map(|s| match s {
            St::Times(_, b) => 3 + rmax(b, words),
            St::R(b) => 1 + rmax(b, words),
            St::If(a, b) => rmax(a, words).max(rmax(b, words)),
            St::Call(w) => 1 + rmax(&words[*w].body, words),
            _ => 3,
        })
        .max()
        .unwrap_or(0)
}

/// The same code with many items below those it uses on the return stack.
fn deepen(src: &mut Src, mut b: Vec<St>, words: &[Word]) -> Vec<St> {
    let room = 58usize.saturating_sub(rmax(&b, words));
    let n = if src.chance(1, 2) { room } else { src.usize(room + 1) };
    for k in 0..n {
        b = vec![St::Lit(k as i64), St::R(b), St::Drop];
    }
    b
}

fn fit(v: &mut Vec<St>, from: usize, to: usize) {
    for _ in to..from {
        v.push(St::Drop);
    }
    for _ in from..to {
        v.push(St::Lit(4));
    }
}

// ---------------------------------------------------------------- simulator

#[derive(Clone, Debug)]
enum Rv {
    Ret(usize, usize),
    Val(i64),
    Loop(i64, i64),
}

#[derive(Clone, Default, Debug)]
struct Task {
    s: Vec<i64>,
    f: Vec<f64>,
    r: Vec<Rv>,
    word: usize,
    pc: usize,
    awake: bool,
    started: bool,
}

struct Sim<'a> {
    words: &'a [Word],
    tasks: Vec<Task>,
    cur: usize,
    vars: Vec<i64>,
    facs: Vec<i64>,
    addrs: Vec<i64>,
    out: String,
    fuel: i64,
    switches: usize,
    ran: u32,
}

/// Index of the built-in word `nod`.
const NOD: usize = usize::MAX;

impl<'a> Sim<'a> {
    fn pause(&mut self) -> bool {
        for k in 1..=5 {
            let i = (self.cur + k) % 5;
            if self.tasks[i].awake {
                if i != self.cur {
                    self.switches += 1;
                }
                self.cur = i;
                self.ran |= 1 << i;
                return true;
            }
        }
        false
    }
    /// Run a word in the main task until it returns. None: discard.
    fn line(&mut self, w: usize) -> Option<()> {
        assert!(self.cur == 0);
        self.tasks[0].r.clear();
        self.tasks[0].word = w;
        self.tasks[0].pc = 0;
        loop {
            self.fuel -= 1;
            if self.fuel <= 0 {
                return None;
            }
            let c = self.cur;
            let me = c as i64 + 1;
            if self.tasks[c].s.len() > 50 || self.tasks[c].f.len() > 50 {
                return None;
            }
            if self.tasks[c].word == NOD {
                self.pause().then_some(())?;
                continue;
            }
            let words = self.words;
            let ins = &words[self.tasks[c].word].code[self.tasks[c].pc];
            let t = &mut self.tasks[c];
            t.pc += 1;
            match ins {
                In::Lit(n) => t.s.push(*n),
                In::Op(o) => apply_int(o, &mut t.s).unwrap(),
                In::Fetch(v) => t.s.push(self.vars[*v]),
                In::Add(v) => self.vars[*v] = self.vars[*v].wrapping_add(t.s.pop().unwrap()),
                In::Put(v) => self.vars[*v] = t.s.pop().unwrap(),
                In::Print => self.out.push_str(&format!("{} ", t.s.pop().unwrap())),
                In::Me => self.out.push_str(&format!("{me} ")),
                In::Text(x) => self.out.push(*x),
                In::Pause => {
                    self.pause().then_some(())?;
                }
                In::Do(n) => t.r.push(Rv::Loop(0, *n)),
                In::Loop(at) => {
                    let Some(Rv::Loop(i, n)) = t.r.last_mut() else { panic!("no loop in the model") };
                    *i += 1;
                    if *i == *n {
                        t.r.pop();
                    } else {
                        t.pc = *at;
                    }
                }
                In::I => {
                    let Some(Rv::Loop(i, _)) = t.r.last() else { panic!("I without loop in the model") };
                    t.s.push(*i);
                }
                In::Jz(at) => {
                    if t.s.pop().unwrap() == 0 {
                        t.pc = *at;
                    }
                }
                In::Jmp(at) => t.pc = *at,
                In::ToR => {
                    let x = t.s.pop().unwrap();
                    t.r.push(Rv::Val(x));
                }
                In::FromR => {
                    let Some(Rv::Val(x)) = t.r.pop() else { panic!("R> in the model") };
                    t.s.push(x);
                }
                In::RFetch => {
                    let Some(Rv::Val(x)) = t.r.last() else { panic!("R@ in the model") };
                    t.s.push(*x);
                }
                In::Call(w) => {
                    t.r.push(Rv::Ret(t.word, t.pc));
                    t.word = *w;
                    t.pc = 0;
                }
                In::Start(w) => {
                    let n = words[*w].task - 1;
                    let x = &mut self.tasks[n];
                    x.awake = true;
                    x.r.clear();
                    x.word = *w;
                    x.pc = 0;
                    x.started = true;
                }
                In::Halt(n) => {
                    let x = &mut self.tasks[*n - 1];
                    x.awake = true;
                    x.r.clear();
                    x.word = NOD;
                    x.started = true;
                }
                In::Suspend(0) => t.awake = false,
                In::Suspend(n) => self.tasks[*n - 1].awake = false,
                In::Resume(n) => {
                    // A task which was never activated has nothing to run.
                    if *n != 1 && !self.tasks[*n - 1].started {
                        return None;
                    }
                    self.tasks[*n - 1].awake = true;
                }
                // The address of the facility is on the stack while GET waits.
                In::Get(k) => t.s.push(self.addrs[*k]),
                In::Try(k) => {
                    if self.facs[*k] == 0 {
                        self.facs[*k] = me;
                        t.s.pop();
                    } else {
                        t.pc -= 1;
                        self.pause().then_some(())?;
                    }
                }
                In::Release(k) => {
                    if self.facs[*k] == me {
                        self.facs[*k] = 0;
                    }
                }
                In::FLit(n) => t.f.push(*n as f64),
                In::FAdd => {
                    let b = t.f.pop().unwrap();
                    let a = t.f.pop().unwrap();
                    t.f.push(a + b);
                }
                In::FDot => {
                    let a = t.f.pop().unwrap();
                    self.out.push_str(&format!("{a:.7} "));
                }
                In::Ret => match t.r.pop() {
                    Some(Rv::Ret(w, pc)) => {
                        t.word = w;
                        t.pc = pc;
                    }
                    None if c == 0 => return Some(()),
                    x => panic!("return of task {me} to {x:?} in the model"),
                },
            }
        }
    }
}

fn facility(src: &mut Src, ctx: &mut Ctx) -> R {
    run(src, ctx, true)
}

fn tasks(src: &mut Src, ctx: &mut Ctx) -> R {
    run(src, ctx, false)
}

fn run(src: &mut Src, ctx: &mut Ctx, facility: bool) -> R {
    let mut g = G { src, words: vec![], sigs: vec![], starts: vec![], facility, budget: 0 };
    // Plain words.
    for k in 0..g.src.usize(3) {
        g.budget = 12;
        let (i, o) = (g.src.usize(2), g.src.usize(2));
        let mut ft = 0;
        let (mut b, e) = g.block(i, 0, 5, &Cx { top: ' ', nest: 0, task: 0, main: false }, &mut ft);
        fit(&mut b, e, o);
        for _ in 0..ft {
            b.push(St::FDot);
        }
        g.words.push(Word { name: format!("w{k}"), task: 0, body: b, code: vec![], stops: false });
        g.sigs.push((i, o));
    }
    // Code of tasks.
    let n = 1 + g.src.usize(6);
    for k in 0..n {
        g.budget = 25;
        let task = 2 + if k < 4 && g.src.chance(2, 3) { k } else { g.src.usize(4) };
        let mut ft = 0;
        let (mut b, e) = g.block(0, 0, 9, &Cx { top: ' ', nest: 0, task, main: false }, &mut ft);
        // Mostly something is left to be seen.
        if g.src.chance(1, 2) {
            fit(&mut b, e, 1);
        }
        if g.src.chance(1, 3) {
            // For ever.
            let e2 = if g.src.chance(1, 2) { 1 } else { e };
            let _ = e2;
        }
        let stops = g.src.chance(1, 3);
        // Sometimes with nearly full stacks.
        if g.src.chance(1, 8) {
            b = deepen(g.src, b, &g.words);
        }
        if g.src.chance(1, 8) {
            for k in 0..g.src.usize(38) {
                b.insert(0, St::Lit(k as i64 * 3));
            }
            for k in 0..g.src.usize(30) {
                b.insert(0, St::FLit(k as i64));
            }
        }
        g.words.push(Word { name: format!("t{task}{}", (b'a' + k as u8) as char), task, body: b, code: vec![], stops });
        g.starts.push(g.words.len() - 1);
    }
    let nwords = g.words.len();
    // Lines of the main task.
    let m = 2 + g.src.usize(7);
    for k in 0..m {
        g.budget = 14;
        let mut ft = 0;
        let (mut b, e) = g.block(0, 0, 6, &Cx { top: ' ', nest: 0, task: 1, main: true }, &mut ft);
        if k == 0 {
            for &s in &g.starts {
                if g.src.chance(3, 4) {
                    b.insert(0, St::Start(s));
                }
            }
            // The starts come first: no value is on the stack.
        }
        let _ = e;
        if g.src.chance(2, 3) {
            b.push(St::Times(g.src.range(1, 8), vec![St::Pause]));
        }
        if g.src.chance(1, 10) {
            b = deepen(g.src, b, &g.words);
        }
        g.words.push(Word { name: format!("main{k}"), task: 0, body: b, code: vec![], stops: false });
    }
    let mut words = std::mem::take(&mut g.words);
    let forth = g.src.chance(1, 4);
    for i in 0..words.len() {
        let mut code = vec![];
        flat(&words[i].body.clone(), &mut code);
        if words[i].task != 0 {
            let at = code.len();
            if words[i].stops {
                code.push(In::Suspend(0));
            }
            code.push(In::Pause);
            code.push(In::Jmp(at));
        } else {
            code.push(In::Ret);
        }
        words[i].code = code;
    }
    let mut sim = Sim { words: &words, tasks: vec![Task::default(); 5], cur: 0, vars: vec![0; NV], facs: vec![0; NF], addrs: vec![], out: String::new(), fuel: 4000, switches: 0, ran: 1 };
    sim.tasks[0].awake = true;
    let mut vm = Vm::new();
    for k in 0..NV {
        let _ = vm.eval(&format!("variable v{k}"));
    }
    for k in 0..NF {
        let _ = vm.eval(&format!("variable f{k} f{k}"));
        sim.addrs.push(vm.stack().last().copied().unwrap_or(0));
        vm.clear();
    }
    for w in &words {
        let mut t = String::new();
        text(&w.body, &words, &mut t);
        let line = if w.task == 0 {
            format!(": {} {t};", w.name)
        } else {
            format!(": {} {} activate {t}begin {} again ;", w.name, w.task, if w.stops { "stop" } else { "pause" })
        };
        note!(ctx, "{}", line);
        let r = vm.eval(&line);
        ensure!(r.is_ok(), "rejected", "{line}: {r:?}");
    }
    let _ = vm.take_output();
    for k in nwords..words.len() {
        if sim.line(k).is_none() {
            ctx.label("discarded");
            break;
        }
        let line = words[k].name.clone();
        note!(ctx, "{}", line);
        let r = if forth { vm.eval_forth(&line) } else { vm.eval(&line) };
        ensure!(r.is_ok(), "exception", "{line}: {r:?}");
        ensure!(vm.task_index() == 0, "task", "{line}: task {} runs after the line of the main task", vm.task_index() + 1);
        let o = vm.take_output();
        let wo = std::mem::take(&mut sim.out);
        ensure!(o == wo, "output", "{line}: output {o:?} expected {wo:?}");
        for i in 0..5 {
            let (s, f) = vm.task_stacks(i);
            ensure!(s == sim.tasks[i].s, "stack", "{line}: task {} has stack {} expected {}", i + 1, show(&s), show(&sim.tasks[i].s));
            ensure!(f == sim.tasks[i].f, "floats", "{line}: task {} has floats {f:?} expected {:?}", i + 1, sim.tasks[i].f);
            let a = vm.is_awake(i);
            ensure!(a == sim.tasks[i].awake, "awake", "{line}: task {} is {} but expected {}", i + 1, a, sim.tasks[i].awake);
        }
        let keep = vm.stack().len();
        for v in 0..NV {
            let _ = vm.eval(&format!("v{v} @"));
            let got = vm.stack()[keep..].to_vec();
            ensure!(got == [sim.vars[v]], "memory", "{line}: v{v} is {got:?} expected {}", sim.vars[v]);
            let _ = vm.eval("drop");
        }
        for v in 0..NF {
            let _ = vm.eval(&format!("f{v} @"));
            let got = vm.stack()[keep..].to_vec();
            ensure!(got == [sim.facs[v]], "facility", "{line}: facility {v} is {got:?} expected {}", sim.facs[v]);
            let _ = vm.eval("drop");
        }
    }
    if sim.ran.count_ones() >= 3 && sim.switches >= 10 {
        ctx.nontrivial();
    }
    Ok(())
}

/// Task numbers outside 1 to 5 are rejected without any effect on the tasks.
fn numbers(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = Vm::new();
    let r = vm.eval("variable c2 variable c3 : b2 2 activate begin 1 c2 +! pause again ; : b3 3 activate begin 1 c3 +! pause again ; : go pause ; : n 1 swap 2drop ; b2 b3");
    ensure!(r.is_ok(), "setup", "{r:?}");
    let (mut c2, mut c3) = (0i64, 0i64);
    let mut awake = [true, true, true, false, false];
    let mut bad = 0;
    for k in 0..3 + src.usize(8) {
        vm.clear();
        let n: i64 = match src.weighted(&[3, 2, 2, 2]) {
            0 => *src.pick(&[0, 6, 7, -1, 1000]),
            1 => src.cell(),
            2 => (1i64 << *src.pick(&[3, 8, 16, 32, 63])).wrapping_add(src.range(-2, 7)),
            _ => src.range(-300, 300),
        };
        let valid = (1..=5).contains(&n);
        let w = *src.pick(&["suspend", "resume", "activate", "halt"]);
        if valid {
            // A few good ones in between.
            let n = src.range(2, 3);
            let w = *src.pick(&["suspend", "resume"]);
            let r = vm.eval(&format!("{n} {w}"));
            ensure!(r.is_ok(), "exception", "{n} {w}: {r:?}");
            awake[n as usize - 1] = w == "resume";
            note!(ctx, "{n} {w}");
        } else {
            bad += 1;
            let line = if w == "activate" || src.chance(1, 2) { format!(": x{k} 7 #{n} {w} 8 ; 5 x{k} 6") } else { format!("5 #{n} {w} 6") };
            note!(ctx, "{line}");
            let r = if src.chance(1, 3) { vm.eval_forth(&line) } else { vm.eval(&line) };
            ensure!(r == Err(-24), "accepted", "{line}: {r:?}");
            ensure!(vm.stack().is_empty(), "stack", "{line}: {:?}", vm.stack());
            vm.host_reset();
        }
        ensure!(vm.task_index() == 0, "task", "task {} runs", vm.task_index() + 1);
        for i in 0..5 {
            ensure!(vm.is_awake(i) == awake[i], "awake", "task {} is awake: {}", i + 1, vm.is_awake(i));
        }
        let r = vm.eval("go");
        ensure!(r.is_ok(), "exception", "go: {r:?}");
        c2 += awake[1] as i64;
        c3 += awake[2] as i64;
        let r = vm.eval("c2 @ c3 @");
        ensure!(r.is_ok() && vm.stack() == [c2, c3], "counters", "counters {:?} expected {c2} {c3}", vm.stack());
    }
    if bad >= 2 {
        ctx.nontrivial();
    }
    Ok(())
}
