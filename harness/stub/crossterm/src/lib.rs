//! Stand-in for `crossterm`: keys come from a script; commands are written as the escape sequences of a terminal.
use std::cell::RefCell;
use std::collections::VecDeque;

pub type Result<T> = std::io::Result<T>;
pub type ErrorKind = std::io::Error;

/// The user's side of the terminal.
pub trait Terminal {
    /// The program waits for key number `n`.
    fn wait(&mut self, n: usize);
    /// Column and row of the cursor.
    fn position(&mut self) -> (u16, u16);
    fn raw(&mut self, on: bool);
}

#[derive(Default)]
struct Script {
    keys: VecDeque<event::Event>,
    read: usize,
    raw: bool,
    terminal: Option<Box<dyn Terminal>>,
}

thread_local! {
    static SCRIPT: RefCell<Script> = RefCell::new(Script::default());
}

/// Keys to be read from now on; Ctrl-D follows them.
pub fn set_keys(keys: Vec<event::Event>, terminal: Box<dyn Terminal>) {
    SCRIPT.with(|s| *s.borrow_mut() = Script { keys: keys.into(), read: 0, raw: false, terminal: Some(terminal) });
}

/// Number of keys read, the Ctrl-D at the end included.
pub fn keys_read() -> usize {
    SCRIPT.with(|s| s.borrow().read)
}

pub fn remove_terminal() {
    SCRIPT.with(|s| *s.borrow_mut() = Script::default());
}

fn terminal<T>(f: impl FnOnce(&mut dyn Terminal) -> T) -> Option<T> {
    let mut t = SCRIPT.with(|s| s.borrow_mut().terminal.take());
    let r = t.as_mut().map(|t| f(t.as_mut()));
    SCRIPT.with(|s| s.borrow_mut().terminal = t);
    r
}

pub trait Command {
    fn write_ansi(&self, f: &mut impl std::fmt::Write) -> std::fmt::Result;
}

impl<T: Command> Command for &T {
    fn write_ansi(&self, f: &mut impl std::fmt::Write) -> std::fmt::Result {
        (**self).write_ansi(f)
    }
}

pub fn ansi(c: &impl Command) -> String {
    let mut s = String::new();
    let _ = c.write_ansi(&mut s);
    s
}

pub trait QueueableCommand: std::io::Write + Sized {
    fn queue(&mut self, c: impl Command) -> Result<&mut Self> {
        self.write_all(ansi(&c).as_bytes())?;
        Ok(self)
    }
}
impl<T: std::io::Write> QueueableCommand for T {}

pub trait ExecutableCommand: std::io::Write + Sized {
    fn execute(&mut self, c: impl Command) -> Result<&mut Self> {
        self.write_all(ansi(&c).as_bytes())?;
        self.flush()?;
        Ok(self)
    }
}
impl<T: std::io::Write> ExecutableCommand for T {}

#[macro_export]
macro_rules! queue {
    ($w:expr $(, $c:expr)* $(,)?) => {{
        use ::std::io::Write;
        let mut r: ::std::io::Result<()> = Ok(());
        $( if r.is_ok() { r = $w.by_ref().write_all($crate::ansi(&$c).as_bytes()); } )*
        r
    }};
}

#[macro_export]
macro_rules! execute {
    ($w:expr $(, $c:expr)* $(,)?) => {{
        use ::std::io::Write;
        let mut r: ::std::io::Result<()> = Ok(());
        $( if r.is_ok() { r = $w.by_ref().write_all($crate::ansi(&$c).as_bytes()); } )*
        if r.is_ok() { r = $w.by_ref().flush(); }
        r
    }};
}

macro_rules! commands {
    ($($name:ident $(($($a:ident : $t:ty),*))? => $($fmt:expr),+;)*) => { $(
        #[derive(Clone, Copy, Debug)]
        pub struct $name $(($(pub $t),*))?;
        impl $crate::Command for $name {
            fn write_ansi(&self, f: &mut impl std::fmt::Write) -> std::fmt::Result {
                $( let $name($($a),*) = *self; )?
                write!(f, $($fmt),+)
            }
        }
    )* }
}

pub mod cursor {
    use super::*;
    commands! {
        MoveTo(c: u16, r: u16) => "\x1b[{};{}H", r.saturating_add(1), c.saturating_add(1);
        MoveToColumn(c: u16) => "\x1b[{}G", c.saturating_add(1);
        MoveToRow(r: u16) => "\x1b[{}d", r.saturating_add(1);
        MoveUp(n: u16) => "\x1b[{}A", n;
        MoveDown(n: u16) => "\x1b[{}B", n;
        MoveRight(n: u16) => "\x1b[{}C", n;
        MoveLeft(n: u16) => "\x1b[{}D", n;
        MoveToNextLine(n: u16) => "\x1b[{}E", n;
        MoveToPreviousLine(n: u16) => "\x1b[{}F", n;
        SavePosition => "\x1b7";
        RestorePosition => "\x1b8";
        Hide => "\x1b[?25l";
        Show => "\x1b[?25h";
        EnableBlinking => "\x1b[?12h";
        DisableBlinking => "\x1b[?12l";
    }
    pub fn position() -> Result<(u16, u16)> {
        let _ = std::io::Write::flush(&mut std::io::stdout());
        Ok(terminal(|t| t.position()).unwrap_or((0, 0)))
    }
}

pub mod style {
    use super::*;
    #[derive(Clone, Copy, Debug)]
    pub struct Print<T: std::fmt::Display>(pub T);
    impl<T: std::fmt::Display> Command for Print<T> {
        fn write_ansi(&self, f: &mut impl std::fmt::Write) -> std::fmt::Result {
            write!(f, "{}", self.0)
        }
    }
    commands! {
        ResetColor => "\x1b[0m";
    }
}

pub mod event {
    use super::*;
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd)]
    pub struct KeyModifiers(u8);
    impl KeyModifiers {
        pub const NONE: KeyModifiers = KeyModifiers(0);
        pub const SHIFT: KeyModifiers = KeyModifiers(1);
        pub const CONTROL: KeyModifiers = KeyModifiers(2);
        pub const ALT: KeyModifiers = KeyModifiers(4);
        pub const SUPER: KeyModifiers = KeyModifiers(8);
        pub const HYPER: KeyModifiers = KeyModifiers(16);
        pub const META: KeyModifiers = KeyModifiers(32);
        pub fn empty() -> KeyModifiers {
            KeyModifiers(0)
        }
        pub fn bits(&self) -> u8 {
            self.0
        }
        pub fn is_empty(&self) -> bool {
            self.0 == 0
        }
        pub fn contains(&self, o: KeyModifiers) -> bool {
            self.0 & o.0 == o.0
        }
        pub fn intersects(&self, o: KeyModifiers) -> bool {
            self.0 & o.0 != 0
        }
    }
    impl std::ops::BitOr for KeyModifiers {
        type Output = KeyModifiers;
        fn bitor(self, o: KeyModifiers) -> KeyModifiers {
            KeyModifiers(self.0 | o.0)
        }
    }
    impl std::ops::BitAnd for KeyModifiers {
        type Output = KeyModifiers;
        fn bitand(self, o: KeyModifiers) -> KeyModifiers {
            KeyModifiers(self.0 & o.0)
        }
    }
    impl std::ops::Sub for KeyModifiers {
        type Output = KeyModifiers;
        fn sub(self, o: KeyModifiers) -> KeyModifiers {
            KeyModifiers(self.0 & !o.0)
        }
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd)]
    pub struct KeyEventState(u8);
    impl KeyEventState {
        pub const NONE: KeyEventState = KeyEventState(0);
        pub fn empty() -> KeyEventState {
            KeyEventState(0)
        }
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd)]
    pub enum KeyEventKind {
        Press,
        Repeat,
        Release,
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd)]
    pub enum KeyCode {
        Backspace,
        Enter,
        Left,
        Right,
        Up,
        Down,
        Home,
        End,
        PageUp,
        PageDown,
        Tab,
        BackTab,
        Delete,
        Insert,
        F(u8),
        Char(char),
        Null,
        Esc,
        CapsLock,
        ScrollLock,
        NumLock,
        PrintScreen,
        Pause,
        Menu,
        KeypadBegin,
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd)]
    pub struct KeyEvent {
        pub code: KeyCode,
        pub modifiers: KeyModifiers,
        pub kind: KeyEventKind,
        pub state: KeyEventState,
    }
    impl KeyEvent {
        pub const fn new(code: KeyCode, modifiers: KeyModifiers) -> KeyEvent {
            KeyEvent { code, modifiers, kind: KeyEventKind::Press, state: KeyEventState::NONE }
        }
    }
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    pub enum Event {
        FocusGained,
        FocusLost,
        Key(KeyEvent),
        Paste(String),
        Resize(u16, u16),
    }
    pub fn key(code: KeyCode, modifiers: KeyModifiers) -> Event {
        Event::Key(KeyEvent::new(code, modifiers))
    }
    pub fn poll(_: std::time::Duration) -> Result<bool> {
        Ok(true)
    }
    pub fn read() -> Result<Event> {
        let n = SCRIPT.with(|s| {
            let mut s = s.borrow_mut();
            s.read += 1;
            s.read - 1
        });
        terminal(|t| t.wait(n));
        SCRIPT.with(|s| Ok(s.borrow_mut().keys.pop_front().unwrap_or(key(KeyCode::Char('d'), KeyModifiers::CONTROL))))
    }
}

pub mod terminal {
    use super::*;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum ClearType {
        All,
        Purge,
        FromCursorDown,
        FromCursorUp,
        CurrentLine,
        UntilNewLine,
    }
    #[derive(Clone, Copy, Debug)]
    pub struct Clear(pub ClearType);
    impl Command for Clear {
        fn write_ansi(&self, f: &mut impl std::fmt::Write) -> std::fmt::Result {
            f.write_str(match self.0 {
                ClearType::All => "\x1b[2J",
                ClearType::Purge => "\x1b[3J",
                ClearType::FromCursorDown => "\x1b[J",
                ClearType::FromCursorUp => "\x1b[1J",
                ClearType::CurrentLine => "\x1b[2K",
                ClearType::UntilNewLine => "\x1b[K",
            })
        }
    }
    pub fn size() -> Result<(u16, u16)> {
        Ok((2000, 2000))
    }
    pub fn enable_raw_mode() -> Result<()> {
        SCRIPT.with(|s| s.borrow_mut().raw = true);
        super::terminal(|t| t.raw(true));
        Ok(())
    }
    pub fn disable_raw_mode() -> Result<()> {
        SCRIPT.with(|s| s.borrow_mut().raw = false);
        super::terminal(|t| t.raw(false));
        Ok(())
    }
    pub fn is_raw_mode_enabled() -> Result<bool> {
        Ok(SCRIPT.with(|s| s.borrow().raw))
    }
}
