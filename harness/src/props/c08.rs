//! C08: histories of definitions, redefinitions, markers and failures against a model dictionary.
use crate::engine::*;
use crate::model::*;
use crate::vm::Vm;

pub fn property() -> Property {
    Property {
        id: "C08",
        rule: "Histories of definitions of all kinds over a small pool of names (with hash collisions, names of built-in words and of numbers, non-ASCII names, any letter case), redefinitions, failing definitions, immediate and compile-only words, macros with POSTPONE, deferred words, stores into the data of words, markers and host words. After every step the meaning of a name, and at the end of every name, is compared with a model dictionary bound by identity. Non-trivial: at least one name was redefined and at least one marker was executed or a definition failed.",
        families: vec![
            Family { name: "history", quick: 180_000, thorough: 700_000, run: history },
            Family { name: "markers", quick: 150_000, thorough: 500_000, run: markers },
            Family { name: "many", quick: 1_000, thorough: 4_000, run: many },
        ],
        probes: vec![],
        assumptions: vec!["deferred words whose target was removed by a marker are not executed", "programs do not store outside the data of their words"],
    }
}

const NAMES: &[&str] = &[
    "foo", "bar", "xa", "y@", "a~", "b]", "7", "-1", "true", "bl", "false", "fo", "fooo", "é", "É", "λx", "Λx", "ñ", "Ñ", "ß", "ẞ", "k", "\u{212a}", "q", "q?", "nil", "x1", "1x",
];

#[derive(Clone, Debug)]
enum Use {
    Lit(i64),
    /// Execute the word's probe: definition and index.
    Def(usize, usize),
    /// ['] name execute
    Tick(usize),
    /// literal name: stores into the data of the word.
    Put(usize, usize, i64),
    /// Turn on the first cell with ON, a library word.
    On(usize),
}

#[derive(Clone, Debug)]
enum Item {
    Compile(usize),
    Run(usize),
    Lit(i64),
}

#[derive(Clone, Debug)]
enum Kind {
    Colon(Vec<Use>),
    Macro(Vec<Item>),
    Const(i64),
    Const2(i64, i64),
    FConst(f64),
    /// Data cells
    Data,
    Data2,
    FData,
    Field(i64),
    Defer(Option<usize>),
    /// CREATE , DOES> @ k +
    Does(i64),
    /// mode, k
    Doer(u8, i64),
    Marker { len: usize, here: usize, last: Option<usize> },
    Host(i64),
}

struct Def {
    name: String,
    kind: Kind,
    cells: Vec<i64>,
    float: f64,
    immediate: bool,
    compile_only: bool,
}

struct W {
    defs: Vec<Def>,
    dict: Vec<usize>,
    last: Option<usize>,
}

fn host_a(vm: &mut Vm) {
    vm.push(4001);
}
fn host_b(vm: &mut Vm) {
    vm.push(4002);
}

impl W {
    fn find(&self, name: &str) -> Option<usize> {
        self.dict.iter().rev().copied().find(|&d| self.defs[d].name.eq_ignore_ascii_case(name))
    }
    fn live(&self, d: usize) -> bool {
        self.dict.contains(&d)
    }
    fn add(&mut self, name: &str, kind: Kind) -> usize {
        self.defs.push(Def { name: name.to_ascii_lowercase(), kind, cells: vec![], float: 0.0, immediate: false, compile_only: false });
        let d = self.defs.len() - 1;
        self.dict.push(d);
        self.last = Some(d);
        d
    }
    /// Number of values the probe leaves; None when it must not be executed.
    fn size(&self, d: usize, depth: usize) -> Option<usize> {
        if depth > 10 || !self.live(d) {
            return None;
        }
        match &self.defs[d].kind {
            Kind::Colon(b) => {
                let mut n = 0;
                for u in b {
                    n += match u {
                        Use::Lit(_) => 1,
                        Use::Def(e, _) | Use::Tick(e) => self.size(*e, depth + 1)?,
                        Use::Put(..) | Use::On(_) => 0,
                    };
                    if n > 24 {
                        return None;
                    }
                }
                Some(n)
            }
            Kind::Macro(_) | Kind::Doer(..) | Kind::Marker { .. } => None,
            Kind::Const2(..) | Kind::Data2 => Some(2),
            Kind::Defer(t) => match t {
                Some(t) => self.size(*t, depth + 1),
                None => Some(0),
            },
            _ => Some(1),
        }
    }
    /// Text which follows the name in its probe.
    fn suffix(&self, d: usize, k: usize) -> (String, String) {
        match &self.defs[d].kind {
            Kind::Data => ("".into(), format!(" {k} cells + @")),
            Kind::Data2 => ("".into(), " 2@".into()),
            Kind::FData => ("".into(), " f@".into()),
            Kind::Field(_) => ("100 ".into(), "".into()),
            _ => ("".into(), "".into()),
        }
    }
    fn simple(&self, d: usize) -> bool {
        matches!(self.defs[d].kind, Kind::Colon(_) | Kind::Const(_) | Kind::Const2(..) | Kind::FConst(_) | Kind::Does(_) | Kind::Host(_) | Kind::Defer(_))
    }
    fn probe(&mut self, d: usize, k: usize, s: &mut Vec<i64>, f: &mut Vec<f64>) {
        match self.defs[d].kind.clone() {
            Kind::Colon(b) => {
                for u in b {
                    self.exec(&u, s, f);
                }
            }
            Kind::Const(v) | Kind::Host(v) => s.push(v),
            Kind::Const2(a, b) => s.extend([a, b]),
            Kind::FConst(x) => f.push(x),
            Kind::Data => s.push(self.defs[d].cells[k]),
            Kind::Data2 => {
                let c = &self.defs[d].cells;
                s.extend([c[1], c[0]]);
            }
            Kind::FData => f.push(self.defs[d].float),
            Kind::Field(o) => s.push(100 + o),
            Kind::Defer(Some(t)) => self.probe(t, 0, s, f),
            Kind::Defer(None) => {}
            Kind::Does(k) => s.push(self.defs[d].cells[0].wrapping_add(k)),
            Kind::Macro(_) | Kind::Doer(..) | Kind::Marker { .. } => panic!("not executable in the model"),
        }
    }
    fn exec(&mut self, u: &Use, s: &mut Vec<i64>, f: &mut Vec<f64>) {
        match u {
            Use::Lit(n) => s.push(*n),
            Use::Def(d, k) => self.probe(*d, *k, s, f),
            Use::Tick(d) => self.probe(*d, 0, s, f),
            Use::Put(d, k, v) => self.defs[*d].cells[*k] = *v,
            Use::On(d) => self.defs[*d].cells[0] = -1,
        }
    }
    /// Run a macro while compiling `body`.
    fn expand(&mut self, d: usize, body: &mut Vec<Use>, s: &mut Vec<i64>, f: &mut Vec<f64>) {
        let Kind::Macro(items) = self.defs[d].kind.clone() else { panic!() };
        for i in items {
            match i {
                Item::Lit(n) => body.push(Use::Lit(n)),
                Item::Compile(e) => body.push(Use::Def(e, 0)),
                Item::Run(e) => {
                    if let Kind::Macro(_) = self.defs[e].kind {
                        self.expand(e, body, s, f)
                    } else {
                        self.probe(e, 0, s, f)
                    }
                }
            }
        }
    }
    fn macro_ok(&self, d: usize) -> bool {
        match &self.defs[d].kind {
            Kind::Macro(items) => items.iter().all(|i| match i {
                Item::Lit(_) => true,
                Item::Compile(e) => self.size(*e, 0).is_some(),
                Item::Run(e) => self.macro_ok(*e),
            }),
            _ => self.size(d, 0).is_some(),
        }
    }
}

struct H<'a, 'b> {
    /// Names of this history; half of the histories use some long ones.
    names: Vec<String>,
    src: &'a mut Src,
    ctx: &'b mut Ctx,
    vm: Vm,
    w: W,
    forth: bool,
    redefined: bool,
    marked: bool,
    failed: bool,
}

impl<'a, 'b> H<'a, 'b> {
    fn new(src: &'a mut Src, ctx: &'b mut Ctx) -> H<'a, 'b> {
        let forth = src.chance(1, 3);
        let mut w = W { defs: vec![], dict: vec![], last: None };
        for (n, v) in [("true", -1), ("bl", 32), ("false", 0)] {
            w.add(n, Kind::Const(v));
        }
        w.last = None;
        let mut names: Vec<String> = NAMES.iter().map(|s| s.to_string()).collect();
        if src.chance(1, 2) {
            // Long names, which differ at the end, in the middle or in their length only.
            let len = match src.weighted(&[4, 3, 1]) {
                0 => *src.pick(&[15usize, 16, 31, 32, 63, 64, 127, 128, 255, 256]) - src.usize(2),
                1 => 10 + src.usize(300),
                _ => 300 + src.usize(900),
            };
            let c = *src.pick(&['n', '-', 'é', '漢']);
            let a: String = std::iter::repeat(c).take(len).collect();
            names.push(format!("{a}"));
            names.push(format!("{a}x"));
            names.push(format!("{a}y"));
            if src.chance(1, 2) {
                // Equal hashes, different at the very end or the very beginning.
                let t = |x: &str| if len % 2 == 0 { format!("{a}{x}") } else { format!("{x}{a}") };
                names.extend([t("xa"), t("y@"), t("XA"), t("xab")]);
            }
            names.push(format!("{}z{}", c.to_string().repeat(len / 2), c.to_string().repeat(len - len / 2)));
        }
        H { names, src, ctx, vm: Vm::new(), w, forth, redefined: false, marked: false, failed: false }
    }
    fn eval(&mut self, line: &str) -> Result<(), i64> {
        note!(self.ctx, "{}", line);
        let r = if self.forth { self.vm.eval_forth(line) } else { self.vm.eval(line) };
        r
    }
    /// Evaluate and compare; afterwards the stacks are empty.
    fn check(&mut self, line: &str, want: Result<(), i64>, s: &[i64], f: &[f64]) -> R {
        let r = self.eval(line);
        ensure!(r == want, "exception", "{line}: {r:?} expected {want:?}");
        let (gs, gf) = (self.vm.stack(), self.vm.fstack());
        if want.is_ok() {
            ensure!(gs == s, "meaning", "{line}: stack {} expected {}", show(&gs), show(s));
            ensure!(gf == f, "meaning", "{line}: floats {gf:?} expected {f:?}");
        } else {
            self.failed = true;
            self.vm.host_reset();
        }
        self.vm.clear();
        Ok(())
    }
    fn name(&mut self) -> String {
        let i = self.src.usize(self.names.len());
        self.names[i].clone()
    }
    fn cased(&mut self, n: &str) -> String {
        if self.src.chance(1, 3) { vary_case(self.src, n) } else { n.to_string() }
    }
    fn lit(&mut self) -> i64 {
        1000 + self.src.range(0, 2000)
    }
    fn note_new(&mut self, name: &str) {
        if self.w.find(name).is_some() {
            self.redefined = true;
        }
    }
    /// What a name without definition means.
    fn unknown(name: &str) -> Result<Vec<i64>, i64> {
        match name {
            "7" => Ok(vec![7]),
            "-1" => Ok(vec![-1]),
            _ => Err(-13),
        }
    }

    /// Look at the meaning of a name.
    fn look(&mut self, name: &str) -> R {
        let text = self.cased(name);
        match self.w.find(name) {
            None => match Self::unknown(name) {
                Ok(v) => self.check(&text, Ok(()), &v, &[]),
                Err(e) => self.check(&format!("{text} 5"), Err(e), &[], &[]),
            },
            Some(d) => {
                if self.w.size(d, 0).is_none() {
                    if self.w.defs[d].compile_only {
                        return self.check(&text, Err(-14), &[], &[]);
                    }
                    // It exists.
                    return self.check(&format!("' {text} 0<"), Ok(()), &[0], &[]);
                }
                let (mut s, mut f) = (vec![], vec![]);
                let k = if self.w.defs[d].cells.is_empty() { 0 } else { self.src.usize(self.w.defs[d].cells.len()) };
                let tick = self.src.chance(1, 3);
                if self.w.defs[d].compile_only && !tick {
                    return self.check(&text, Err(-14), &[], &[]);
                }
                self.w.probe(d, k, &mut s, &mut f);
                let (pre, suf) = self.w.suffix(d, k);
                let line = if tick { format!("{pre}' {text} execute{suf}") } else { format!("{pre}{text}{suf}") };
                self.check(&line, Ok(()), &s, &f)?;
                if matches!(self.w.defs[d].kind, Kind::Data) && self.src.chance(1, 4) {
                    self.check(&format!("' {text} >body {text} ="), Ok(()), &[-1], &[])?;
                }
                Ok(())
            }
        }
    }

    fn colon(&mut self) -> R {
        let name = self.name();
        let n = self.src.usize(6);
        let mut body = vec![];
        let mut text = String::new();
        let (mut s, mut f) = (vec![], vec![]);
        let mut err = None;
        for _ in 0..n {
            match self.src.weighted(&[3, 8, 2, 1, 1]) {
                0 => {
                    let v = self.lit();
                    text.push_str(&format!("{v} "));
                    body.push(Use::Lit(v));
                }
                1 => {
                    // Often the name being defined.
                    let m = if self.src.chance(1, 4) { name.clone() } else { self.name() };
                    let t = self.cased(&m);
                    match self.w.find(&m) {
                        None => match Self::unknown(&m) {
                            Ok(v) => {
                                text.push_str(&format!("{t} "));
                                body.push(Use::Lit(v[0]));
                            }
                            Err(e) => {
                                if self.src.chance(1, 3) {
                                    text.push_str(&format!("{t} "));
                                    err = Some(e);
                                    break;
                                }
                            }
                        },
                        Some(d) => {
                            let def = &self.w.defs[d];
                            if let Kind::Macro(_) = def.kind {
                                if self.w.macro_ok(d) {
                                    text.push_str(&format!("{t} "));
                                    self.w.expand(d, &mut body, &mut s, &mut f);
                                }
                            } else if self.w.size(d, 0).is_some() {
                                if def.immediate {
                                    text.push_str(&format!("{t} "));
                                    self.w.probe(d, 0, &mut s, &mut f);
                                } else {
                                    let k = if def.cells.is_empty() { 0 } else { self.src.usize(def.cells.len()) };
                                    let (pre, suf) = self.w.suffix(d, k);
                                    text.push_str(&format!("{pre}{t}{suf} "));
                                    body.push(Use::Def(d, k));
                                }
                            }
                        }
                    }
                }
                2 => {
                    let m = self.name();
                    if let Some(d) = self.w.find(&m) {
                        if self.w.simple(d) && self.w.size(d, 0).is_some() {
                            let t = self.cased(&m);
                            text.push_str(&format!("['] {t} execute "));
                            body.push(Use::Tick(d));
                        }
                    }
                }
                3 => {
                    let m = self.name();
                    if let Some(d) = self.w.find(&m) {
                        if matches!(self.w.defs[d].kind, Kind::Data) && !self.w.defs[d].immediate {
                            let k = self.src.usize(self.w.defs[d].cells.len());
                            let v = self.lit();
                            text.push_str(&format!("{v} {m} {k} cells + ! "));
                            body.push(Use::Put(d, k, v));
                        }
                    }
                }
                _ => {
                    let m = self.name();
                    if let Some(d) = self.w.find(&m) {
                        if matches!(self.w.defs[d].kind, Kind::Data) && !self.w.defs[d].immediate {
                            text.push_str(&format!("{m} on "));
                            body.push(Use::On(d));
                        }
                    }
                }
            }
            if s.len() > 30 {
                break;
            }
        }
        // Total size of the result.
        let mut total = 0;
        for u in &body {
            total += match u {
                Use::Lit(_) => 1,
                Use::Def(e, _) | Use::Tick(e) => self.w.size(*e, 0).unwrap_or(99),
                _ => 0,
            };
        }
        if total > 20 || s.len() > 30 {
            return Ok(());
        }
        let t = self.cased(&name);
        if err.is_none() && self.src.chance(1, 12) {
            let (bad, e) = *self.src.pick(&[("if", -22), ("do", -22), ("then", -22), ("loop", -22), ("undefined-word", -13), ("abort [", -1000), ("postpone", -39), ("postpone undefined-word", -13), ("begin case", -22), ("['] undefined-word", -13)]);
            if e != -1000 {
                text.push_str(bad);
                text.push(' ');
                err = Some(e);
            }
        }
        let multi = self.src.chance(1, 5);
        let line = format!(": {t} {text}{}", if err == Some(-39) { "" } else { ";" });
        if let Some(e) = err {
            self.w.last = None;
            return self.check(&line, Err(e), &[], &[]);
        }
        self.note_new(&name);
        if multi {
            // Split at a space (never within the parsed arguments).
            let at = format!(": {t} ").len();
            if !text.is_empty() {
                let (a, b) = line.split_at(at);
                let r = self.eval(a);
                ensure!(r.is_ok(), "exception", "{a}: {r:?}");
                self.vm_check(b, &s, &f)?;
            } else {
                self.check(&line, Ok(()), &s, &f)?;
            }
        } else {
            self.check(&line, Ok(()), &s, &f)?;
        }
        let d = self.w.add(&name, Kind::Colon(body));
        if self.src.chance(1, 6) {
            self.check("immediate", Ok(()), &[], &[])?;
            self.w.defs[d].immediate = true;
        }
        if self.src.chance(1, 8) {
            self.check("compile-only", Ok(()), &[], &[])?;
            self.w.defs[d].compile_only = true;
        }
        Ok(())
    }
    fn vm_check(&mut self, line: &str, s: &[i64], f: &[f64]) -> R {
        self.check(line, Ok(()), s, f)
    }

    fn make_macro(&mut self) -> R {
        let name = self.name();
        let mut items = vec![];
        let mut text = String::new();
        for _ in 0..1 + self.src.usize(3) {
            let m = self.name();
            match self.w.find(&m) {
                Some(d) if self.w.macro_ok(d) => {
                    let def = &self.w.defs[d];
                    let imm = def.immediate;
                    if !matches!(def.kind, Kind::Macro(_)) && !self.w.simple(d) {
                        continue;
                    }
                    let t = self.cased(&m);
                    text.push_str(&format!("postpone {t} "));
                    items.push(if imm { Item::Run(d) } else { Item::Compile(d) });
                }
                _ => {
                    let v = self.lit();
                    text.push_str(&format!("{v} postpone literal "));
                    items.push(Item::Lit(v));
                }
            }
        }
        self.note_new(&name);
        self.check(&format!(": {name} {text}; immediate compile-only"), Ok(()), &[], &[])?;
        let d = self.w.add(&name, Kind::Macro(items));
        self.w.defs[d].immediate = true;
        self.w.defs[d].compile_only = true;
        Ok(())
    }

    fn data_word(&mut self) -> R {
        let name = self.name();
        let t = self.cased(&name);
        let (a, b) = (self.lit(), self.lit());
        self.note_new(&name);
        match self.src.below(12) {
            0 | 1 => {
                self.check(&format!("{a} constant {t}"), Ok(()), &[], &[])?;
                self.w.add(&name, Kind::Const(a));
            }
            2 => {
                self.check(&format!("variable {t}"), Ok(()), &[], &[])?;
                let d = self.w.add(&name, Kind::Data);
                self.w.defs[d].cells = vec![0];
            }
            3 => {
                let n = 1 + self.src.usize(4);
                let mut line = format!("create {t}");
                let mut cells = vec![];
                for _ in 0..n {
                    let v = self.lit();
                    line.push_str(&format!(" {v} ,"));
                    cells.push(v);
                }
                self.check(&line, Ok(()), &[], &[])?;
                let d = self.w.add(&name, Kind::Data);
                self.w.defs[d].cells = cells;
            }
            4 => {
                // Fresh memory has to be stored into first.
                let n = 1 + self.src.usize(6);
                let mut line = format!("create {t} {n} cells allot");
                let mut cells = vec![];
                for k in 0..n {
                    let v = self.lit();
                    line.push_str(&format!(" {v} {t} {k} cells + !"));
                    cells.push(v);
                }
                self.check(&line, Ok(()), &[], &[])?;
                let d = self.w.add(&name, Kind::Data);
                self.w.defs[d].cells = cells;
            }
            5 => {
                self.check(&format!("{a} {b} 2constant {t}"), Ok(()), &[], &[])?;
                self.w.add(&name, Kind::Const2(a, b));
            }
            6 => {
                self.check(&format!("2variable {t} {a} {b} {t} 2!"), Ok(()), &[], &[])?;
                let d = self.w.add(&name, Kind::Data2);
                self.w.defs[d].cells = vec![b, a];
            }
            7 => {
                self.check(&format!("{a}e fconstant {t}"), Ok(()), &[], &[])?;
                self.w.add(&name, Kind::FConst(a as f64));
            }
            8 => {
                let skew = if self.src.chance(1, 2) { "create pad1 1 allot ".to_string() } else { String::new() };
                self.check(&format!("{skew}fvariable {t} {a}e {t} f!"), Ok(()), &[], &[])?;
                let d = self.w.add(&name, Kind::FData);
                self.w.defs[d].float = a as f64;
            }
            9 => {
                self.check(&format!("{a} {b} +field {t}"), Ok(()), &[a + b], &[])?;
                self.w.add(&name, Kind::Field(a));
            }
            10 => {
                self.check(&format!("defer {t}"), Ok(()), &[], &[])?;
                self.w.add(&name, Kind::Defer(None));
            }
            _ => {
                let (f, v): (fn(&mut Vm), i64) = if self.src.chance(1, 2) { (host_a, 4001) } else { (host_b, 4002) };
                note!(self.ctx, "host word {name} pushing {v}");
                self.vm.add_host_word(&name, f);
                self.w.add(&name, Kind::Host(v));
            }
        }
        if self.src.chance(1, 10) {
            let d = self.w.last.unwrap();
            if matches!(self.w.defs[d].kind, Kind::Const(_) | Kind::Const2(..) | Kind::FConst(_)) {
                self.check("immediate", Ok(()), &[], &[])?;
                self.w.defs[d].immediate = true;
            }
        }
        Ok(())
    }

    fn doer(&mut self) -> R {
        let name = self.name();
        if self.src.chance(1, 2) {
            let mode = self.src.below(5) as u8;
            let k = self.lit();
            let body = match mode {
                0 => format!("create , does> @ {k} +"),
                1 => "constant".to_string(),
                2 => format!("create , {k} ,"),
                // Applied to the last word made by CREATE.
                4 => format!("does> @ {k} +"),
                _ => format!("create , {k} , does> dup @ swap cell+ @ +"),
            };
            self.note_new(&name);
            self.check(&format!(": {name} {body} ;"), Ok(()), &[], &[])?;
            self.w.add(&name, Kind::Doer(mode, k));
        } else {
            // A child of any doer.
            let doers: Vec<usize> = self.w.dict.iter().copied().filter(|&d| matches!(self.w.defs[d].kind, Kind::Doer(..)) && self.w.find(&self.w.defs[d].name) == Some(d)).collect();
            if doers.is_empty() {
                return Ok(());
            }
            let d = *self.src.pick(&doers);
            let dn = self.w.defs[d].name.clone();
            let dn = self.cased(&dn);
            let v = self.lit();
            let Kind::Doer(mode, k) = self.w.defs[d].kind else { unreachable!() };
            if mode == 4 {
                // Gives the last word another action, also a second and third time.
                let Some(l) = self.w.last.filter(|&l| self.w.live(l)) else { return Ok(()) };
                if let Kind::Data | Kind::Does(_) = self.w.defs[l].kind {
                    self.check(&dn, Ok(()), &[], &[])?;
                    self.w.defs[l].kind = Kind::Does(k);
                    self.ctx.label("new action");
                    let n = self.w.defs[l].name.clone();
                    if self.w.find(&n) == Some(l) {
                        return self.look(&n);
                    }
                }
                return Ok(());
            }
            self.note_new(&name);
            self.check(&format!("{v} {dn} {name}"), Ok(()), &[], &[])?;
            match mode {
                0 | 3 => {
                    let e = self.w.add(&name, Kind::Does(k));
                    self.w.defs[e].cells = vec![v];
                }
                1 => {
                    self.w.add(&name, Kind::Const(v));
                }
                _ => {
                    let e = self.w.add(&name, Kind::Data);
                    self.w.defs[e].cells = vec![v, k];
                }
            }
        }
        Ok(())
    }

    fn set(&mut self) -> R {
        let name = self.name();
        let Some(d) = self.w.find(&name) else { return Ok(()) };
        if self.w.defs[d].immediate || self.w.defs[d].compile_only {
            return Ok(());
        }
        let t = self.cased(&name);
        let v = self.lit();
        match self.w.defs[d].kind.clone() {
            Kind::Data => {
                let k = self.src.usize(self.w.defs[d].cells.len());
                self.check(&format!("{v} {t} {k} cells + !"), Ok(()), &[], &[])?;
                self.w.defs[d].cells[k] = v;
            }
            Kind::Data2 => {
                self.check(&format!("{v} {} {t} 2!", v + 1), Ok(()), &[], &[])?;
                self.w.defs[d].cells = vec![v + 1, v];
            }
            Kind::FData => {
                self.check(&format!("{v}e {t} f!"), Ok(()), &[], &[])?;
                self.w.defs[d].float = v as f64;
            }
            Kind::Does(_) => {
                self.check(&format!("{v} ' {t} >body !"), Ok(()), &[], &[])?;
                self.w.defs[d].cells[0] = v;
            }
            Kind::Defer(_) => {
                let m = self.name();
                if let Some(e) = self.w.find(&m) {
                    // No cycles.
                    if self.w.simple(e) && e != d && !matches!(self.w.defs[e].kind, Kind::Defer(_)) && !self.reaches(e, d, 0) {
                        if self.src.chance(1, 4) {
                            self.check(&format!(": set-it ['] {m} ['] {t} defer! ; set-it"), Ok(()), &[], &[])?;
                            self.w.last = None;
                        } else {
                            self.check(&format!("' {m} ' {t} defer!  ' {t} defer@ ' {m} ="), Ok(()), &[-1], &[])?;
                        }
                        self.w.defs[d].kind = Kind::Defer(Some(e));
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }
    fn reaches(&self, e: usize, d: usize, depth: usize) -> bool {
        if e == d || depth > 12 {
            return true;
        }
        match &self.w.defs[e].kind {
            Kind::Colon(b) => b.iter().any(|u| match u {
                Use::Def(x, _) | Use::Tick(x) => self.reaches(*x, d, depth + 1),
                _ => false,
            }),
            Kind::Defer(Some(t)) => self.reaches(*t, d, depth + 1),
            _ => false,
        }
    }

    fn marker(&mut self) -> R {
        if self.src.chance(1, 3) {
            // Strings and ALLOT leave the data space pointer unaligned.
            let n = 1 + self.src.usize(20);
            let how = self.src.below(3);
            let line = match how {
                0 => format!("#{n} allot"),
                1 => "1.5e f,".to_string(),
                _ => format!("here #{n} + here - allot"),
            };
            self.check(&line, Ok(()), &[], &[])?;
        }
        let here = self.vm.here();
        let (len, last) = (self.w.dict.len(), self.w.last);
        let name = if self.src.chance(1, 2) { self.name() } else { self.src.pick(&["m1", "m2", "m3"]).to_string() };
        self.note_new(&name);
        let t = self.cased(&name);
        self.check(&format!("marker {t}"), Ok(()), &[], &[])?;
        self.w.add(&name, Kind::Marker { len, here, last });
        Ok(())
    }
    fn unmark(&mut self) -> R {
        let ms: Vec<usize> = self.w.dict.iter().copied().filter(|&d| matches!(self.w.defs[d].kind, Kind::Marker { .. }) && self.w.find(&self.w.defs[d].name) == Some(d)).collect();
        if ms.is_empty() {
            return Ok(());
        }
        let d = *self.src.pick(&ms);
        let Kind::Marker { len, here, last } = self.w.defs[d].kind else { unreachable!() };
        let t = self.w.defs[d].name.clone();
        let t = self.cased(&t);
        if self.src.chance(1, 4) {
            // Compiled code may call it as its last action.
            self.check(&format!(": go {t} ; go"), Ok(()), &[], &[])?;
        } else if self.src.chance(1, 4) {
            self.check(&format!("' {t} execute"), Ok(()), &[], &[])?;
        } else {
            self.check(&t, Ok(()), &[], &[])?;
        }
        self.w.dict.truncate(len);
        self.w.last = last;
        self.marked = true;
        let now = self.vm.here();
        ensure!(now == here, "here", "{t}: the data space pointer is {now:#x} but was {here:#x} before the marker");
        // Everything is as before.
        for _ in 0..3 {
            let n = self.name();
            self.look(&n)?;
        }
        Ok(())
    }

    fn step(&mut self, marks: bool) -> R {
        let m = if marks { 4 } else { 1 };
        match self.src.weighted(&[8, 2, 7, 3, 4, m, m, 1, 6, 1]) {
            0 => self.colon(),
            1 => self.make_macro(),
            2 => self.data_word(),
            3 => self.doer(),
            4 => self.set(),
            5 => self.marker(),
            6 => self.unmark(),
            7 => self.failing(),
            8 => {
                let n = self.name();
                self.look(&n)
            }
            _ => {
                // IMMEDIATE marks the last definition, also after a marker.
                if let Some(d) = self.w.last {
                    if self.w.live(d) && matches!(self.w.defs[d].kind, Kind::Colon(_) | Kind::Const(_) | Kind::Const2(..) | Kind::FConst(_)) {
                        self.check("immediate", Ok(()), &[], &[])?;
                        self.w.defs[d].immediate = true;
                    }
                }
                Ok(())
            }
        }
    }
    /// A line which fails.
    fn failing(&mut self) -> R {
        let name = self.name();
        match self.src.below(3) {
            0 => {
                let w = *self.src.pick(&[":", "constant", "variable", "create", "marker", "2constant", "fconstant", "defer", "+field", "'", "2variable", "fvariable"]);
                self.check(&format!("5 6 7e {w}"), Err(-39), &[], &[])?;
                self.w.last = None;
            }
            1 => {
                self.check(&format!(": {name} 1 2 3 undefined-word ; 5"), Err(-13), &[], &[])?;
                self.w.last = None;
            }
            _ => {
                // The definition is complete before the line fails.
                self.note_new(&name);
                self.check(&format!(": {name} 1234 ; undefined-word"), Err(-13), &[], &[])?;
                self.w.add(&name, Kind::Colon(vec![Use::Lit(1234)]));
            }
        }
        Ok(())
    }

    fn all(&mut self) -> R {
        let mut names = self.names.clone();
        names.extend(["m1", "m2", "m3"].map(String::from));
        for n in names {
            self.look(&n)?;
            if let Some(d) = self.w.find(&n) {
                for k in 0..self.w.defs[d].cells.len() {
                    if matches!(self.w.defs[d].kind, Kind::Data) {
                        let v = self.w.defs[d].cells[k];
                        self.check(&format!("{n} {k} cells + @"), Ok(()), &[v], &[])?;
                    }
                }
            }
        }
        // Words of the system keep working.
        self.check("1 2 max 5 -3 abs within 10 spaces 3 constant c7 c7", Ok(()), &[0, 3], &[])?;
        if self.redefined && (self.marked || self.failed) {
            self.ctx.nontrivial();
        }
        if self.redefined { self.ctx.label("redefinition") }
        if self.marked { self.ctx.label("marker executed") }
        if self.failed { self.ctx.label("failure") }
        Ok(())
    }
}

fn history(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = 5 + src.usize(25);
    let mut h = H::new(src, ctx);
    for _ in 0..n {
        h.step(false)?;
    }
    h.all()
}

fn markers(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = 5 + src.usize(25);
    let mut h = H::new(src, ctx);
    for _ in 0..n {
        h.step(true)?;
    }
    h.all()
}

/// Several hundred names, so that every hash bucket holds chains, and markers in between.
fn many(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vm = Vm::big(64);
    // Seldom among very many other words.
    if src.chance(1, 8) {
        let n = src.usize(2500);
        vm.crowd(n);
        note!(ctx, "{n} other words");
    }
    let n = 100 + src.usize(400);
    let mut dict: Vec<(String, i64)> = vec![];
    let mut marks: Vec<(String, usize, usize)> = vec![];
    let width = 1 + src.usize(3);
    // A few names of one hash bucket, so that its chain gets long.
    let mut few: Vec<String> = vec![];
    if src.chance(1, 2) {
        let bucket = src.below(64) as u32;
        for k in 0..400 {
            let name = format!("{}{k}_", ['q', 'k', '#', 'w'][src.usize(4)]);
            if name.bytes().fold(5381u32, |h, c| h.wrapping_mul(33).wrapping_add(c as u32)) % 64 == bucket {
                few.push(name);
            }
        }
    }
    for i in 0..n {
        let mut name: String = (0..1 + src.usize(width)).map(|_| *src.pick(&['a', 'b', 'C', '~', '!', 'z', '0', '-', '(', '\u{e9}'])).collect::<String>() + "_";
        if !few.is_empty() && !src.chance(1, 8) {
            // The first ones are rare.
            let k = src.usize(few.len());
            let k = if k < 2 { src.usize(few.len()) } else { k };
            name = few[k].clone();
        }
        if src.chance(1, 60) {
            let m = format!("mark{i}");
            let here = vm.here();
            let r = vm.eval(&format!("marker {m}"));
            ensure!(r.is_ok(), "exception", "marker {m}: {r:?}");
            marks.push((m, dict.len(), here));
            note!(ctx, "marker");
        } else if src.chance(1, 70) && !marks.is_empty() {
            let k = src.usize(marks.len());
            let (m, len, here) = marks[k].clone();
            let r = vm.eval(&m);
            ensure!(r.is_ok(), "exception", "{m}: {r:?}");
            ensure!(vm.here() == here, "here", "{m}: here {:#x} was {here:#x}", vm.here());
            marks.truncate(k);
            dict.truncate(len);
            note!(ctx, "execute marker {k}");
            ctx.nontrivial();
        } else {
            let r = vm.eval(&format!("{i} constant {name}"));
            ensure!(r.is_ok(), "exception", "constant {name}: {r:?}");
            let low = name.to_ascii_lowercase();
            if dict.iter().any(|d| d.0 == low) { ctx.nontrivial() }
            dict.push((low, i as i64));
            note!(ctx, "{i} constant {name}");
        }
    }
    let _ = vm.take_output();
    let mut seen: Vec<String> = vec![];
    for (name, v) in dict.iter().rev() {
        if seen.contains(name) {
            continue;
        }
        seen.push(name.clone());
        let t = vary_case(src, name);
        let r = vm.eval(&t);
        let s = vm.stack();
        ensure!(r.is_ok() && s == [*v], "meaning", "{t}: {r:?} {s:?} expected {v}");
        vm.clear();
    }
    // Words and tokens found by other words are the same ones.
    let mut used: Vec<usize> = vec![];
    for _ in 0..if seen.is_empty() { 0 } else { 1 + src.usize(6) } {
        let k = src.usize(seen.len());
        if used.contains(&k) {
            continue;
        }
        used.push(k);
        let v = dict.iter().rev().find(|d| d.0 == seen[k]).unwrap().1;
        let t = vary_case(src, &seen[k]);
        for line in [
            format!("' {t} execute"),
            format!(": check{k} {t} ; check{k}"),
            format!(": checkx{k} ['] {t} execute ; checkx{k}"),
            format!(": checkp{k} postpone {t} ; immediate : checkq{k} checkp{k} ; checkq{k}"),
        ] {
            let r = vm.eval(&line);
            let s = vm.stack();
            ensure!(r.is_ok() && s == [v], "meaning", "{line}: {r:?} {s:?} expected {v}");
            vm.clear();
        }
    }
    for name in ["a_", "b_", "aa_", "zz_", "~a_", "(b_"] {
        if !seen.contains(&name.to_string()) {
            let r = vm.eval(name);
            ensure!(r == Err(-13), "meaning", "{name}: {r:?} but it is not defined");
            vm.host_reset();
        }
    }
    Ok(())
}
