//! C21: the program rtf: line editor, history of lines, sessions, arguments.
use crate::engine::*;
use crate::screen::{width, Screen};
use crate::vm::{Vm, SESSION};
use rtforth::core::Core;
use std::path::{Path, PathBuf};

pub fn property() -> Property {
    Property {
        id: "C21",
        rule: "Keys are typed at the program rtf. Families editor and session run its virtual machine in this process with a stand-in for the terminal which delivers the keys and interprets what is drawn; family terminal runs the program itself in a pseudo terminal. The line which Forth receives, what is displayed when the next key is awaited, the history that Up and Down recall, the history file after the session, the screen of a whole session (against the session of the library run on the same lines) and the state in which the terminal is left are compared with a model. Non-trivial: at least two lines are entered, and one of them was edited (moved in, erased from or recalled).",
        families: vec![
            #[cfg(feature = "rtf")]
            Family { name: "editor", quick: 60_000, thorough: 1_500_000, run: inside::editor },
            #[cfg(feature = "rtf")]
            Family { name: "session", quick: 16_000, thorough: 300_000, run: inside::session },
            #[cfg(feature = "rtf")]
            Family { name: "clock", quick: 24, thorough: 160, run: inside::clock },
            Family { name: "terminal", quick: 2_000, thorough: 40_000, run: terminal },
        ],
        probes: vec![],
        assumptions: vec!["the terminal is wide enough for the line", "widths of characters are those of the crate unicode-width", "lines of the history file are text without control characters"],
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    Char(char),
    Enter,
    Back,
    Left,
    Right,
    Up,
    Down,
    /// Keys without a meaning.
    Insert,
    PageUp,
    PageDown,
    F(u8),
    Ctrl(char),
    Alt(char),
    Resize,
    Eof,
}

const CHARS: &[char] = &['a', 'b', 'Z', '0', ' ', ' ', '.', '(', '"', 'é', 'ß', 'Ж', '日', '本', '한', '😀', 'e', '\u{301}', '~', '\u{a0}'];

/// The line editor as a user knows it.
pub struct Editor {
    pub history: Vec<String>,
    buf: Vec<char>,
    x: usize,
    h: usize,
    pub edited: bool,
}

impl Editor {
    pub fn new(mut lines: Vec<String>) -> Editor {
        let n = lines.len().saturating_sub(32);
        lines.drain(..n);
        Editor { history: lines, buf: vec![], x: 0, h: 0, edited: false }
    }
    pub fn begin(&mut self) {
        self.history.push(String::new());
        self.buf.clear();
        self.x = 0;
        self.h = self.history.len() - 1;
    }
    pub fn line(&self) -> String {
        self.buf.iter().collect()
    }
    fn recall(&mut self, to: usize) {
        self.history[self.h] = self.line();
        self.h = to;
        self.buf = self.history[to].chars().collect();
        self.x = self.buf.len();
        self.edited = true;
    }
    /// Some: the line has been entered, or the session ended.
    pub fn press(&mut self, k: K) -> Option<Result<String, ()>> {
        match k {
            K::Char(c) => {
                self.edited |= self.x < self.buf.len();
                self.buf.insert(self.x, c);
                self.x += 1;
            }
            K::Back => {
                if self.x > 0 {
                    self.x -= 1;
                    self.buf.remove(self.x);
                    self.edited = true;
                }
            }
            K::Left => self.x = self.x.saturating_sub(1),
            K::Right => self.x = (self.x + 1).min(self.buf.len()),
            K::Up => self.recall(self.h.saturating_sub(1)),
            K::Down => self.recall((self.h + 1).min(self.history.len() - 1)),
            K::Enter => {
                self.x = self.buf.len();
                let l = self.line();
                if l.is_empty() {
                    self.history.pop();
                } else {
                    *self.history.last_mut().unwrap() = l.clone();
                }
                return Some(Ok(l));
            }
            K::Eof => return Some(Err(())),
            _ => {}
        }
        None
    }
    fn shown(&self) -> (String, usize) {
        let before: String = self.buf[..self.x].iter().collect();
        (self.line(), width(&before))
    }
}

/// What is expected when a key is awaited.
#[derive(Clone, Debug)]
pub enum Want {
    Any,
    Show(String, usize),
}

/// Keys and what the screen shows before each of them.
#[derive(Default)]
pub struct Typing {
    pub keys: Vec<K>,
    pub wants: Vec<Want>,
}

impl Typing {
    fn press(&mut self, ed: &mut Editor, k: K, first: bool) -> Option<Result<String, ()>> {
        let (l, c) = ed.shown();
        self.wants.push(if first { Want::Any } else { Want::Show(l, c) });
        self.keys.push(k);
        ed.press(k)
    }
}

fn noise(src: &mut Src, stub: bool) -> K {
    match src.usize(if stub { 8 } else { 7 }) {
        0 => K::Insert,
        1 => K::PageUp,
        2 => K::PageDown,
        3 => K::F(1 + src.usize(12) as u8),
        4 | 5 => K::Ctrl(*src.pick(&['a', 'b', 'e', 'f', 'k', 'n', 'p', 'w'])),
        6 => K::Alt(*src.pick(&['a', 'b', 'd', 'f', 'x'])),
        _ => K::Resize,
    }
}

/// Type any keys, then Enter or the end of the session.
fn any_line(src: &mut Src, ed: &mut Editor, t: &mut Typing, eof: bool, stub: bool) -> Result<String, ()> {
    ed.begin();
    let long = src.chance(1, 100);
    let n = if long { 100 + src.usize(500) } else if src.chance(1, 12) { src.usize(120) } else { src.usize(14) };
    let recall = src.chance(1, 3);
    let mut first = true;
    if src.chance(1, 15) {
        // To the oldest line of the history
        for _ in 0..ed.history.len() + src.usize(4) {
            t.press(ed, K::Up, first);
            first = false;
        }
    }
    for _ in 0..n {
        let k = match src.weighted(&[if long { 200 } else { 10 }, 3, 4, 2, if recall { 3 } else { 0 }, if recall { 2 } else { 0 }, 1]) {
            0 => K::Char(*src.pick(CHARS)),
            1 => K::Back,
            2 => K::Left,
            3 => K::Right,
            4 => K::Up,
            5 => K::Down,
            _ => noise(src, stub),
        };
        t.press(ed, k, first);
        first = false;
    }
    t.press(ed, if eof { K::Eof } else { K::Enter }, first).unwrap()
}

/// Type a line, not always straight on.
fn type_line(src: &mut Src, ed: &mut Editor, t: &mut Typing, line: &str, stub: bool) {
    ed.begin();
    let mut first = true;
    let mut press = |ed: &mut Editor, t: &mut Typing, k: K| {
        t.press(ed, k, first);
        first = false;
    };
    let want: Vec<char> = line.chars().collect();
    if src.chance(1, 6) {
        for _ in 0..1 + src.usize(4) {
            let k = match src.weighted(&[4, 2, 2, 1, 2]) {
                0 => K::Up,
                1 => K::Down,
                2 => K::Char(*src.pick(CHARS)),
                3 => K::Left,
                _ => K::Back,
            };
            press(ed, t, k);
        }
    }
    // To the end, and back to a common beginning
    while ed.buf != want && ed.x < ed.buf.len() {
        press(ed, t, K::Right);
    }
    while !want.starts_with(&ed.buf) {
        press(ed, t, K::Back);
    }
    let skip = if src.chance(1, 6) && want.len() > ed.buf.len() { Some(ed.buf.len() + src.usize(want.len() - ed.buf.len())) } else { None };
    for i in ed.buf.len()..want.len() {
        if Some(i) == skip {
            continue;
        }
        if src.chance(1, 40) {
            match src.usize(3) {
                0 => {
                    press(ed, t, K::Char(*src.pick(CHARS)));
                    press(ed, t, K::Back);
                }
                1 => press(ed, t, noise(src, stub)),
                _ => {
                    let n = 1 + src.usize(3).min(ed.buf.len());
                    for _ in 0..n {
                        press(ed, t, K::Left);
                    }
                    while ed.x < ed.buf.len() {
                        press(ed, t, K::Right);
                    }
                }
            }
        }
        press(ed, t, K::Char(want[i]));
    }
    if let Some(i) = skip {
        while ed.x > i {
            press(ed, t, K::Left);
        }
        press(ed, t, K::Char(want[i]));
    }
    assert!(ed.buf == want);
    press(ed, t, K::Enter);
}

fn tell(keys: &[K]) -> String {
    let mut s = String::new();
    for k in keys {
        match k {
            K::Char(c) if *c != '<' => s.push(*c),
            k => s += &format!("<{k:?}>"),
        }
    }
    s
}

/// Lines of the history file.
fn saved(path: &Path) -> Option<Vec<String>> {
    let b = std::fs::read(path).ok()?;
    Some(read_lines(&b))
}

fn read_lines(b: &[u8]) -> Vec<String> {
    let mut v: Vec<&[u8]> = b.split(|&c| c == b'\n').collect();
    if v.last().is_some_and(|l| l.is_empty()) {
        v.pop();
    }
    let ends = b.ends_with(b"\n");
    let n = v.len();
    v.iter().enumerate().map(|(i, l)| String::from_utf8(if i + 1 < n || ends { l.strip_suffix(b"\r").unwrap_or(l) } else { l }.to_vec()).unwrap_or_default()).collect()
}

/// The file keeps the last lines, at most 32 of them and at least 31 if there are that many.
fn check_saved(path: &Path, ed: &Editor) -> R {
    let Some(got) = saved(path) else { return fail("history", "the history is not saved".to_string()) };
    let all: Vec<&String> = ed.history.iter().filter(|l| !l.is_empty()).collect();
    let tail = |n: usize| all[all.len() - n..].iter().map(|s| s.to_string()).collect::<Vec<_>>();
    // Empty entries, which editing can leave, count.
    let last32 = ed.history[ed.history.len().saturating_sub(32)..].iter().filter(|l| !l.is_empty()).count();
    let ok = got.len() <= 32 && got.len() >= last32 && got.len() <= all.len() && got == tail(got.len());
    ensure!(ok, "history", "the history file holds {got:?}; the history is {:?}", ed.history);
    Ok(())
}

fn start_file(src: &mut Src, path: &Path) -> Vec<String> {
    let _ = std::fs::remove_file(path);
    if src.chance(1, 2) {
        return vec![];
    }
    std::fs::create_dir_all(path.parent().unwrap()).unwrap();
    let n = if src.chance(1, 40) { 60 + src.usize(1200) } else if src.chance(1, 3) { 28 + src.usize(30) } else { src.usize(6) };
    let mut b: Vec<u8> = vec![];
    for i in 0..n {
        if src.chance(1, 100) {
            b.extend(format!("{i} ").repeat(1 + src.usize(300)).bytes());
        } else if src.chance(1, 30) {
            b.extend(b"x\xff\xfez");
        } else if src.chance(1, 30) {
            // empty
        } else {
            b.extend(format!("{} l{i}", src.pick(CHARS)).bytes());
        }
        let last = i + 1 == n;
        if !last && src.chance(1, 20) {
            b.push(b'\r');
        }
        if i + 1 < n || src.chance(9, 10) {
            b.push(b'\n');
        }
    }
    std::fs::write(path, &b).unwrap();
    read_lines(&b)
}

/// Lines which use the tables and tasks of the machine to their limits.
fn machine_lines(src: &mut Src, ctx: &Ctx, serial: usize, out: &mut Vec<String>) {
    match src.usize(5) {
        0 => {
            // Labels
            let (a, b) = (src.range(1, 499), src.range(500, 999));
            let (a, b) = if src.chance(1, 2) { (b, a) } else { (a, b) };
            out.push(format!("0labels : lb{serial} 3 [ {a} ] label dup . 1- dup if [ {a} ] goto then [ {b} ] goto 9 . [ {b} ] label drop 7 . ;"));
            out.push(format!("lb{serial} {a} ."));
        }
        1 => {
            // Task with all kinds of state of its own
            let n = 1 + src.usize(4);
            let mut tasks: Vec<i64> = vec![];
            for k in 0..n {
                let id = src.range(2, 5);
                if tasks.contains(&id) {
                    continue;
                }
                tasks.push(id);
                let v = format!("{serial}{k}");
                out.push(format!("variable x{v} variable y{v} fvariable z{v} 0 x{v} ! 0 y{v} ! 0.0e z{v} f!"));
                let mut b = format!(": b{v} {id} activate {} {}.5e ", src.range(1, 50), src.range(0, 9));
                if src.chance(1, 3) {
                    b += &format!("s\" {}\" w/o create-file drop y{v} ! ", ctx.scratch().join(format!("t{v}")).display());
                }
                b += "begin ";
                for _ in 0..1 + src.usize(4) {
                    b += match src.usize(9) {
                        0 => "1+ ",
                        1 => "dup + 1000 mod ",
                        2 => "dup >r pause r> drop ",
                        3 => "3 0 do i + pause loop ",
                        4 => "1.5e f+ ",
                        5 => "fdup f+ pause 100.0e fmin ",
                        6 => "dup . ",
                        7 => "5 >r 2 0 do i pause + loop r> + ",
                        _ => "7 pause drop ",
                    };
                }
                b += &format!("dup x{v} ! fdup z{v} f! depth y{v} +! pause again ;");
                out.push(b);
            }
            let names: Vec<String> = (0..4).map(|k| format!("{serial}{k}")).take(tasks.len()).collect();
            // Names follow the order in which the tasks were written.
            let made: Vec<String> = names.into_iter().filter(|v| out.iter().any(|l| l.starts_with(&format!(": b{v} ")))).collect();
            out.push(made.iter().map(|v| format!("b{v} ")).collect());
            for _ in 0..1 + src.usize(4) {
                out.push(match src.weighted(&[4, 1, 1, 1, 2]) {
                    4 => format!("{}.25e {} : q{serial} {} >r {} 0 do pause loop r> . ; q{serial} . f. .s", src.range(1, 99), src.range(1, 99), src.range(1, 99), src.range(1, 9)),
                    0 => format!(": p{serial} {} 0 do pause loop ; p{serial} {}", src.range(1, 9), made.iter().map(|v| format!("x{v} @ . y{v} @ . z{v} f@ f. ")).collect::<String>()),
                    1 => format!("{} suspend", src.pick(&tasks)),
                    2 => format!("{} resume", src.pick(&tasks)),
                    _ => format!("{} halt", src.pick(&tasks)),
                });
            }
            if src.chance(1, 2) {
                out.push("2 halt 3 halt 4 halt 5 halt".into());
            }
        }
        2 => {
            // Files of the operator
            let p = ctx.scratch().join(format!("f{serial}"));
            out.push(format!(": nm{serial} s\" {}\" ;", p.display()));
            out.push(format!("nm{serial} r/w create-file . dup . : ln{serial} s\" 1 2 + . \" ; ln{serial} 2 pick write-file . close-file ."));
            out.push(format!("nm{serial} included 5 ."));
        }
        3 => {
            // Nested files
            let d = ctx.scratch();
            let n = 1 + src.usize(6);
            for k in 0..n {
                let p = d.join(format!("n{serial}{k}.fth"));
                let t = if k == 0 { src.pick(&["1 .\n2 .", "zork", "source-id .", ": q 1 if ;"]).to_string() } else { format!("{k} .\ninclude {}\nsource-id . load-line# @ .", d.join(format!("n{serial}{}.fth", k - 1)).display()) };
                std::fs::write(&p, t + "\n").unwrap();
            }
            out.push(format!("include {} 77 .", d.join(format!("n{serial}{}.fth", n - 1)).display()));
        }
        _ => {
            // Pictured numbers, pads, long words
            out.push(format!("{} dup <# # #s char * hold #> type 20 .r", src.cell()));
            let w = "w".repeat(1 + src.usize(100));
            out.push(format!(": {w} 5 ; {w} . {w}x"));
        }
    }
}

/// Lines of a session.
fn session_lines(src: &mut Src, ctx: &Ctx, n: usize) -> Vec<String> {
    let mut lines = crate::props::c11::typed_lines(src, ctx, n, (1, 4));
    if src.chance(1, 2) {
        for i in 0..1 + src.usize(2) {
            machine_lines(src, ctx, i, &mut lines);
        }
    }
    lines
}

/// Screen of a session in which these lines are entered.
/// What the arguments print is shown at once or, as it is not flushed, with the first line (`late`).
fn screen_of(lines: &[String], args: &str, late: bool) -> (Screen, usize) {
    let mut vm = Vm::repl(lines);
    if !args.is_empty() {
        vm.set_source(args);
    }
    vm.run_repl();
    let t = SESSION.with(|s| s.borrow().clone());
    let mut s = Screen::default();
    let (first, rest) = t[0].split_at(vm.shown_first.unwrap_or(t[0].len()));
    s.feed(first);
    if !late {
        s.feed(rest);
        s.feed(if rest.is_empty() { "" } else { "\n" });
    }
    for (i, (l, o)) in lines.iter().zip(&t[1..]).enumerate() {
        s.feed("\x1b[2K\r");
        s.feed(l);
        if i == 0 && late {
            s.feed(rest);
        }
        s.feed(o);
    }
    (s, t.len() - 1)
}

fn check_screen(got: &Screen, want: &Screen, exact: bool) -> R {
    let (g, w) = (got.all(), want.all());
    let g2 = if exact || g.len() < w.len() { &g[..] } else { &g[g.len() - w.len()..] };
    let first = g2.iter().zip(&w).position(|(a, b)| a != b).unwrap_or(g2.len().min(w.len()));
    ensure!(g2 == &w[..], "screen", "line {} of the screen is {:?}, expected {:?}; {} lines, expected {}", first + 1, g2.get(first), w.get(first), g.len(), w.len());
    Ok(())
}

#[cfg(feature = "rtf")]
pub mod inside {
    use super::*;
    use crossterm::event::{key, Event, KeyCode, KeyModifiers};
    use rtforth::output::Output;
    use std::cell::RefCell;
    use std::rc::Rc;

    fn event(k: K, shift: bool) -> Event {
        let none = KeyModifiers::NONE;
        match k {
            K::Char(c) => key(KeyCode::Char(c), if c.is_uppercase() || shift { KeyModifiers::SHIFT } else { none }),
            K::Enter => key(KeyCode::Enter, none),
            K::Back => key(KeyCode::Backspace, none),
            K::Left => key(KeyCode::Left, none),
            K::Right => key(KeyCode::Right, none),
            K::Up => key(KeyCode::Up, none),
            K::Down => key(KeyCode::Down, none),
            K::Insert => key(KeyCode::Insert, none),
            K::PageUp => key(KeyCode::PageUp, none),
            K::PageDown => key(KeyCode::PageDown, none),
            K::F(n) => key(KeyCode::F(n), none),
            K::Ctrl(c) => key(KeyCode::Char(c), KeyModifiers::CONTROL),
            K::Alt(c) => key(KeyCode::Char(c), KeyModifiers::ALT),
            K::Resize => Event::Resize(100, 30),
            K::Eof => key(KeyCode::Char('d'), KeyModifiers::CONTROL),
        }
    }

    struct Watch {
        screen: Screen,
        wants: Vec<Want>,
        wrong: Option<String>,
        raw: bool,
        cooked_wait: bool,
    }

    struct Tty(Rc<RefCell<Watch>>);

    impl crossterm::Terminal for Tty {
        fn wait(&mut self, n: usize) {
            let mut w = self.0.borrow_mut();
            let t = crate::capture::written();
            w.screen.feed(&t);
            w.cooked_wait |= !w.raw;
            if let (Some(Want::Show(l, c)), None) = (w.wants.get(n).cloned(), &w.wrong) {
                let (line, col) = (w.screen.current(), w.screen.col);
                if line != l.trim_end_matches(' ') || col != c {
                    w.wrong = Some(format!("after {n} keys the screen shows {line:?} with the cursor in column {col}, expected {l:?} and {c}"));
                }
            }
        }
        fn position(&mut self) -> (u16, u16) {
            let mut w = self.0.borrow_mut();
            let t = crate::capture::written();
            w.screen.feed(&t);
            (w.screen.col as u16, w.screen.row as u16)
        }
        fn raw(&mut self, on: bool) {
            self.0.borrow_mut().raw = on;
        }
    }

    fn plug(src: &mut Src, t: &Typing) -> Rc<RefCell<Watch>> {
        crate::capture::take();
        let w = Rc::new(RefCell::new(Watch { screen: Screen::default(), wants: t.wants.clone(), wrong: None, raw: false, cooked_wait: false }));
        let shift = src.chance(1, 10);
        crossterm::set_keys(t.keys.iter().map(|&k| event(k, shift)).collect(), Box::new(Tty(w.clone())));
        w
    }

    fn unplug(w: &Rc<RefCell<Watch>>) -> R {
        crossterm::remove_terminal();
        let t = crate::capture::take();
        let mut w = w.borrow_mut();
        w.screen.feed(&t);
        if let Some(m) = w.wrong.take() {
            return fail("display", m);
        }
        ensure!(!w.cooked_wait, "raw", "a key is awaited while the terminal is not in raw mode");
        ensure!(!w.raw, "raw", "the terminal is left in raw mode");
        Ok(())
    }

    pub fn editor(src: &mut Src, ctx: &mut Ctx) -> R {
        let cache = ctx.scratch().join("c");
        let path = cache.join("rtforth/history.txt");
        let mut lines = start_file(src, &path);
        let home = if src.chance(1, 1000) { 31 } else { src.usize(31) };
        match home {
            31 => {
                ctx.label("history not readable");
                let d = ctx.scratch().join("d");
                std::fs::create_dir_all(d.join("rtforth/history.txt")).unwrap();
                directories::set_cache(Some(d));
                lines = vec![];
            }
            0 => {
                ctx.label("no home");
                directories::set_cache(None);
                lines = vec![];
            }
            1 => {
                ctx.label("cache not writable");
                let f = ctx.scratch().join("f");
                std::fs::write(&f, "x").unwrap();
                directories::set_cache(Some(f));
                lines = vec![];
            }
            _ => directories::set_cache(Some(cache.clone())),
        }
        let mut entered = 0;
        let mut edited = false;
        for s in 0..1 + src.usize(3) {
            let mut ed = Editor::new(lines.clone());
            let mut t = Typing::default();
            let mut want = vec![];
            let many = src.chance(1, 10);
            let most = if src.chance(1, 8) { 300 } else { 30 };
            let n = if many { 20 + src.usize(most) } else { 1 + src.usize(6) };
            for _ in 0..n {
                let l = if many && src.chance(2, 3) {
                    let l = format!("{}{}", src.pick(CHARS), src.usize(100));
                    type_line(src, &mut ed, &mut t, &l, true);
                    Ok(l)
                } else {
                    let eof = src.chance(1, 12);
                    any_line(src, &mut ed, &mut t, eof, true)
                };
                want.push(l.clone());
                if l.is_err() {
                    break;
                }
            }
            note!(ctx, "session {s}, history {:?}: {}", lines, tell(&t.keys));
            let w = plug(src, &t);
            {
                let vm = &mut rtfapp::VM::new(64);
                let receive = vm.find("receive").expect("receive");
                for (i, l) in want.iter().enumerate() {
                    vm.set_source("old");
                    vm.execute_word(receive);
                    let got = vm.input_buffer().clone().unwrap_or_default();
                    match l {
                        Ok(l) => {
                            ensure!(&got == l, "line", "line {i} is received as {got:?}, expected {l:?}");
                            entered += 1;
                        }
                        Err(()) => ensure!(got == "old", "eof", "at the end of the session {got:?} is received"),
                    }
                    ensure!(vm.last_error().is_none(), "error", "error {:?} after line {i}", vm.last_error());
                }
                ensure!(crossterm::keys_read() == t.keys.len(), "keys", "{} keys are read, expected {}", crossterm::keys_read(), t.keys.len());
            }
            unplug(&w)?;
            edited |= ed.edited;
            if home > 1 && home < 31 {
                check_saved(&path, &ed)?;
                lines = saved(&path).unwrap();
                if ed.history.len() > 32 {
                    ctx.label("more than 32 lines");
                }
            }
        }
        if entered >= 2 && edited {
            ctx.nontrivial();
        }
        Ok(())
    }

    /// The clock of the program is real time.
    pub fn clock(src: &mut Src, ctx: &mut Ctx) -> R {
        directories::set_cache(None);
        let w = plug(src, &Typing::default());
        {
            let vm = &mut rtfapp::VM::new(64);
            let ask = |vm: &mut rtfapp::VM, text: &str| {
                vm.set_source(text);
                vm.evaluate_input();
                vm.s_stack().pop() as i64
            };
            let n = src.range(1, 40);
            for k in 0..2 {
                let pause = if k == 0 { 900 + src.usize(600) } else { src.usize(60) } as u64;
                let words = *src.pick(&[("utime", 1_000), ("mtime", 1_000_000)]);
                let a0 = std::time::Instant::now();
                let a = ask(vm, words.0);
                let a1 = std::time::Instant::now();
                std::thread::sleep(std::time::Duration::from_millis(pause));
                let b0 = std::time::Instant::now();
                let b = ask(vm, words.0);
                let b1 = std::time::Instant::now();
                note!(ctx, "{} {a}, {b} after {pause} ms", words.0);
                let least = (b0 - a1).as_nanos() as i64 - words.1 * 2;
                let most = (b1 - a0).as_nanos() as i64 + words.1 * 2;
                let d = (b - a).wrapping_mul(words.1);
                ensure!(least <= d && d <= most, "clock", "{} grows by {} in {pause} ms", words.0, b - a);
            }
            let t = std::time::Instant::now();
            let r = ask(vm, &format!(": w {n} ms ; mtime w mtime swap -"));
            ensure!(vm.last_error().is_none() && r >= n && t.elapsed().as_millis() as i64 >= n - 1, "ms", "{n} MS takes {r} ms, error {:?}", vm.last_error());
        }
        ctx.nontrivial();
        unplug(&w)
    }

    pub fn session(src: &mut Src, ctx: &mut Ctx) -> R {
        let n = 3 + src.usize(10);
        let mut lines = session_lines(src, ctx, n);
        let bye = src.chance(1, 4);
        if bye {
            lines.push(src.pick(&["bye", "5 . bye 6 .", ": x bye 7 . ; x 8 ."]).to_string());
            ctx.label("bye");
        }
        let (want, received) = screen_of(&lines, "", true);
        ensure!(received == lines.len(), "ended", "the session of the library ended after {received} of {} lines", lines.len());
        directories::set_cache(Some(ctx.scratch().join("c")));
        let _ = std::fs::remove_file(ctx.scratch().join("c/rtforth/history.txt"));
        let mut ed = Editor::new(vec![]);
        let mut t = Typing::default();
        for l in &lines {
            type_line(src, &mut ed, &mut t, l, true);
        }
        let typed = t.keys.len();
        if bye {
            ed.begin();
            t.press(&mut ed, K::Char('x'), true);
            ed.history.pop();
        } else {
            ed.begin();
        }
        for l in &lines {
            note!(ctx, "{l}");
        }
        let w = plug(src, &t);
        {
            let vm = &mut rtfapp::VM::new(64);
            let cold = vm.find("cold").expect("cold");
            vm.execute_word(cold);
            vm.run();
            vm.flush_output();
        }
        let read = crossterm::keys_read();
        unplug(&w)?;
        let keys = if bye { typed } else { typed + 1 };
        check_screen(&w.borrow().screen, &want, true)?;
        ensure!(read == keys, "keys", "{read} keys are read, expected {keys}");
        check_saved(&ctx.scratch().join("c/rtforth/history.txt"), &ed)?;
        if lines.len() > 4 && ed.edited {
            ctx.nontrivial();
        }
        Ok(())
    }
}

fn bytes(k: K, out: &mut Vec<u8>) {
    let mut esc = |s: &str| {
        out.push(27);
        out.extend(s.bytes());
    };
    match k {
        K::Char(c) => out.extend(c.to_string().bytes()),
        K::Enter => out.push(b'\r'),
        K::Back => out.push(127),
        K::Left => esc("[D"),
        K::Right => esc("[C"),
        K::Up => esc("[A"),
        K::Down => esc("[B"),
        K::Insert => esc("[2~"),
        K::PageUp => esc("[5~"),
        K::PageDown => esc("[6~"),
        K::F(n) => esc(["OP", "OQ", "OR", "OS", "[15~", "[17~", "[18~", "[19~", "[20~", "[21~", "[23~", "[24~"][n as usize - 1]),
        K::Ctrl(c) => out.push(c as u8 & 31),
        K::Alt(c) => esc(&c.to_string()),
        K::Resize => {}
        K::Eof => out.push(4),
    }
}

struct Ran {
    screen: Screen,
    status: Option<i32>,
    cooked: bool,
    raw_seen: bool,
    late: bool,
}

fn local_mode(fd: i32) -> u32 {
    unsafe {
        let mut t: libc::termios = std::mem::zeroed();
        if libc::tcgetattr(fd, &mut t) != 0 {
            return 0;
        }
        t.c_lflag as u32 & (libc::ICANON | libc::ECHO | libc::ISIG) as u32
    }
}

/// Run the program in a pseudo terminal.
fn run_pty(program: &Path, args: &[String], home: &Path, keys: &[K], interactive: bool, ahead: usize) -> Result<Ran, String> {
    use std::os::unix::process::CommandExt;
    use std::os::unix::process::ExitStatusExt;
    unsafe {
        let m = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        if m < 0 || libc::grantpt(m) != 0 || libc::unlockpt(m) != 0 {
            return Err("no pseudo terminal".into());
        }
        let mut name = [0u8; 64];
        if libc::ptsname_r(m, name.as_mut_ptr() as *mut _, 64) != 0 {
            return Err("no pseudo terminal".into());
        }
        // This end stays open, for the attributes to be read at the end.
        let s = libc::open(name.as_ptr() as *const _, libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        if s < 0 {
            return Err("no pseudo terminal".into());
        }
        let size = libc::winsize { ws_row: 1000, ws_col: 1000, ws_xpixel: 0, ws_ypixel: 0 };
        libc::ioctl(m, libc::TIOCSWINSZ, &size);
        let before = local_mode(s);
        let mut c = std::process::Command::new(program);
        c.args(args).env_clear().env("HOME", home).env("XDG_CACHE_HOME", home.join("c")).env("TERM", "xterm").env("RUST_BACKTRACE", "0").current_dir(home);
        c.pre_exec(move || {
            libc::setsid();
            libc::ioctl(s, libc::TIOCSCTTY, 0);
            libc::dup2(s, 0);
            libc::dup2(s, 1);
            libc::dup2(s, 2);
            libc::signal(libc::SIGPIPE, libc::SIG_DFL);
            Ok(())
        });
        let mut child = c.spawn().map_err(|e| format!("{}: {e}", program.display()))?;
        let begin = std::time::Instant::now();
        let mut ran = Ran { screen: Screen::default(), status: None, cooked: false, raw_seen: false, late: false };
        // Bytes being written; keys whose effect has not been drawn
        let mut pending: Vec<u8> = vec![];
        let mut queue: std::collections::VecDeque<K> = Default::default();
        let mut flying = 0;
        let mut quiet = 0;
        let mut text: Vec<u8> = vec![];
        let mut sent = !interactive;
        let mut done = false;
        libc::fcntl(m, libc::F_SETFL, libc::O_NONBLOCK);
        loop {
            if !ran.raw_seen && local_mode(s) & libc::ICANON as u32 == 0 {
                ran.raw_seen = true;
            }
            if !sent && ran.raw_seen {
                queue.extend(keys);
                sent = true;
            }
            // Keys are written whole, and not further ahead than allowed.
            if quiet > 20 {
                flying = 0;
                quiet = 0;
            }
            while flying < ahead && !queue.is_empty() {
                bytes(queue.pop_front().unwrap(), &mut pending);
                flying += 1;
            }
            if !pending.is_empty() {
                let k = libc::write(m, pending.as_ptr() as *const _, pending.len());
                if k > 0 {
                    pending.drain(..k as usize);
                }
            }
            let mut p = libc::pollfd { fd: m, events: libc::POLLIN, revents: 0 };
            libc::poll(&mut p, 1, 1);
            let mut b = [0u8; 8192];
            let n = libc::read(m, b.as_mut_ptr() as *mut _, b.len());
            if n > 0 {
                text.extend_from_slice(&b[..n as usize]);
                let ok = match std::str::from_utf8(&text) {
                    Ok(t) => t.len(),
                    Err(e) if e.error_len().is_none() => e.valid_up_to(),
                    Err(e) => e.valid_up_to() + e.error_len().unwrap(),
                };
                let t = String::from_utf8_lossy(&text[..ok]).into_owned();
                text.drain(..ok);
                for c in t.chars() {
                    let a = ran.screen.asked;
                    ran.screen.feed(c.encode_utf8(&mut [0; 4]));
                    if ran.screen.asked > a {
                        flying = flying.saturating_sub(1);
                        pending.extend(format!("\x1b[{};{}R", ran.screen.row + 1, ran.screen.col + 1).bytes());
                    }
                }
                quiet = 0;
                continue;
            }
            quiet += 1;
            if done {
                break;
            }
            if let Ok(Some(st)) = child.try_wait() {
                ran.status = st.code().or(st.signal().map(|s| -s));
                done = true;
                continue;
            }
            if begin.elapsed().as_secs() > 30 {
                ran.late = true;
                let _ = child.kill();
                let _ = child.wait();
                break;
            }
        }
        ran.cooked = local_mode(s) == before;
        libc::close(s);
        libc::close(m);
        Ok(ran)
    }
}

fn program() -> PathBuf {
    let root = std::env::var("CARGO_TARGET_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif/target"));
    root.join("debug/rtf")
}

fn terminal(src: &mut Src, ctx: &mut Ctx) -> R {
    let prog = program();
    let home = ctx.scratch().clone();
    let path = home.join("c/rtforth/history.txt");
    if src.chance(1, 25) {
        let usage = src.chance(1, 2);
        let mut args: Vec<String> = vec![src.pick(if usage { &["-h", "--help"] } else { &["-v", "--version"] }).to_string()];
        if usage && src.chance(1, 4) {
            args.insert(src.usize(2), src.pick(&["-v", "--version"]).to_string());
        }
        for _ in 0..if src.chance(1, 2) { src.usize(4) } else { 0 } {
            args.insert(src.usize(args.len() + 1), src.pick(&["4242 .", ".( 4242)", "bye", "zork", "1 0 /"]).to_string());
        }
        let ed = Editor::new(start_file(src, &path));
        note!(ctx, "arguments {args:?}");
        ctx.label("options");
        let ran = run_pty(&prog, &args, &home, &[], false, 1).unwrap_or_else(|e| panic!("{e}"));
        ensure!(!ran.late, "endless", "rtf {args:?} does not end");
        ensure!(ran.status == Some(0), "status", "rtf {args:?} ends with status {:?}", ran.status);
        let shown: Vec<String> = ran.screen.all().into_iter().filter(|l| !l.trim().is_empty()).collect();
        let ok = if usage {
            shown.iter().any(|l| l.contains("Usage: ")) && shown.iter().any(|l| l.contains("--version")) && !shown.iter().any(|l| l.contains("4242") || l.starts_with("rtForth v"))
        } else {
            shown.len() == 1 && shown[0].starts_with("rtForth v")
        };
        ensure!(ok, "options", "rtf {args:?} prints {shown:?}");
        ensure!(ran.cooked, "raw", "rtf {args:?} leaves the terminal in raw mode");
        return check_saved(&path, &ed);
    }
    let old = start_file(src, &path);
    let n = 1 + src.usize(5);
    let mut lines = session_lines(src, ctx, n);
    let mut args: Vec<String> = vec![];
    let mut text = String::new();
    if src.chance(2, 3) {
        let k = 1 + src.usize(4.min(lines.len()));
        for l in lines.drain(..k) {
            // Where in the input buffer the arguments are is not specified.
            let l = if l.contains("source-idx") || l.contains(".input") { "1 .".to_string() } else { l };
            if src.chance(1, 4) && !l.starts_with('-') {
                args.push(l);
            } else {
                args.extend(l.split_whitespace().map(|w| w.to_string()));
            }
        }
        if src.chance(1, 12) {
            // Many words
            for i in 0..300 + src.usize(1500) {
                args.extend([i.to_string(), "drop".to_string()]);
            }
            args.extend(["77".to_string(), ".".to_string()]);
        }
        args.retain(|a| !a.is_empty());
        if args.iter().any(|a| a.starts_with('-')) || src.chance(1, 10) {
            args.insert(0, "--".into());
        }
        text = args.iter().skip_while(|a| *a == "--").map(|a| format!("{a} ")).collect();
        if text.is_empty() {
            args.clear();
        }
    }
    let bye = src.chance(1, 4);
    if bye {
        lines.push("bye".into());
    }
    note!(ctx, "history {old:?}, arguments {args:?}");
    let (want, received) = screen_of(&lines, &text, true);
    if received != lines.len() {
        // The arguments ended it.
        return Ok(());
    }
    let mut ed = Editor::new(old);
    let mut t = Typing::default();
    for l in &lines {
        type_line(src, &mut ed, &mut t, l, false);
        note!(ctx, "{l}");
    }
    if bye {
        if src.chance(1, 2) {
            t.keys.push(K::Char('x'));
        }
    } else {
        ed.begin();
        t.keys.push(K::Eof);
    }
    // An escape sequence which reaches the program in two parts is taken for other keys: try again, key by key.
    let before = std::fs::read(&path).ok();
    let mut r = Ok(());
    for ahead in [24, 1, 1] {
        if let Some(b) = &before {
            std::fs::write(&path, b).unwrap();
        } else {
            let _ = std::fs::remove_file(&path);
        }
        r = judge(&prog, &args, &home, &t, &lines, &text, &want, ctx, ahead);
        r = r.and_then(|()| check_saved(&path, &ed));
        if r.is_ok() {
            break;
        }
    }
    r?;
    if lines.len() >= 2 && ed.edited {
        ctx.nontrivial();
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn judge(prog: &Path, args: &[String], home: &Path, t: &Typing, lines: &[String], text: &str, want: &Screen, ctx: &mut Ctx, ahead: usize) -> R {
    let ran = run_pty(prog, args, home, &t.keys, true, ahead).unwrap_or_else(|e| panic!("{e}"));
    ensure!(!ran.late, "endless", "the program does not end; the screen shows {:?}", ran.screen.all().last());
    ensure!(ran.raw_seen, "raw", "the terminal is never put in raw mode");
    ensure!(ran.status == Some(0), "status", "the program ends with status {:?}; the screen shows {:?}", ran.status, ran.screen.all().iter().rev().take(3).collect::<Vec<_>>());
    let r = check_screen(&ran.screen, want, !text.is_empty());
    if r.is_err() && (text.is_empty() || check_screen(&ran.screen, &screen_of(lines, text, false).0, true).is_err()) {
        return r;
    }
    if text.is_empty() {
        ctx.label("no arguments");
        ensure!(ran.screen.all().iter().any(|l| l.contains("rtForth")), "greeting", "no greeting");
    }
    ensure!(ran.cooked, "raw", "the terminal is left in raw mode");
    Ok(())
}
