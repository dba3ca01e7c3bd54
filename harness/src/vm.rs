//! The host virtual machine of the harness: the `Core` accessors of an embedding application,
//! with a deterministic step budget, a simulated clock and a scripted terminal.
use rtforth::core::{Control, Core, ForwardReferences, Stack, State, Wordlist};
use rtforth::env::Environment;
use rtforth::exception::Exception;
use rtforth::facility::Facility;
use rtforth::file_access::FileAccess;
use rtforth::float::Float;
use rtforth::hibitset::BitSet;
use rtforth::loader::{HasLoader, Source};
use rtforth::memory::{DataSpace, Memory};
use rtforth::output::Output;
use rtforth::tools::Tools;
use rtforth::units::Units;
use rtforth::NUM_TASKS;
use std::cell::Cell;
use std::collections::VecDeque;
use std::fs::File;

const LABEL_COUNT: u32 = 1000;

/// Panic payload used when the step budget is exhausted.
pub struct OutOfSteps;

pub struct Task {
    awake: bool,
    pub state: State,
    pub s_stk: Stack<isize>,
    pub r_stk: Stack<isize>,
    pub c_stk: Stack<Control>,
    pub f_stk: Stack<f64>,
    inbuf: Option<String>,
    files: Vec<Option<File>>,
    sources: Vec<Option<Source>>,
    lines: Vec<Option<String>>,
}

impl Task {
    fn new_background() -> Task {
        Task {
            awake: false,
            state: State::new(),
            s_stk: Stack::new(0x12345678),
            r_stk: Stack::new(0x12345678),
            c_stk: Stack::new(Control::Canary),
            f_stk: Stack::new(1.234567890),
            inbuf: None,
            files: Vec::new(),
            sources: Vec::new(),
            lines: Vec::new(),
        }
    }
    fn new_terminal() -> Task {
        let mut task = Task::new_background();
        task.inbuf = Some(String::with_capacity(0x400));
        task
    }
}

pub struct Vm {
    current_task: usize,
    pub tasks: [Task; NUM_TASKS],
    last_error: Option<Exception>,
    handler: usize,
    wordlist: Wordlist<Vm>,
    data_space: DataSpace,
    tkn: Option<String>,
    outbuf: Option<String>,
    hldbuf: String,
    references: ForwardReferences,
    /// Simulated time in ns.
    pub now: u64,
    /// Time added whenever the clock is read.
    pub tick: u64,
    /// Time stamps the clock was read at.
    pub clock_log: Vec<u64>,
    pub log_clock: bool,
    forward_bitset: BitSet,
    resolved_bitset: BitSet,
    labels: Vec<usize>,
    /// Remaining steps.
    pub steps: u64,
    /// Lines the scripted terminal still has to deliver.
    pub script: VecDeque<String>,
    /// Positions of the captured output after which lines were received.
    pub received: u64,
    /// Length of what had reached the terminal when the first line was awaited.
    pub shown_first: Option<usize>,
    bye: usize,
    clock: Cell<u64>,
}

/// Scripted terminal of the read-eval loop.
fn receive(vm: &mut Vm) {
    vm.flush_capture();
    vm.received += 1;
    match vm.script.pop_front() {
        Some(line) => {
            vm.push_mark(&line);
            vm.set_source(&line)
        }
        None => {
            for t in vm.tasks.iter_mut() {
                t.state.instruction_pointer = 0;
            }
        }
    }
}

/// Lines which define `n` words of no further use.
pub fn crowd_text(n: usize) -> Vec<String> {
    (0..n).collect::<Vec<_>>().chunks(50).map(|c| c.iter().map(|k| format!(": zcrowd{k} ; ")).collect()).collect()
}

thread_local! {
    /// What the terminal session has printed, one entry per received line.
    pub static SESSION: std::cell::RefCell<Vec<String>> = std::cell::RefCell::new(Vec::new());
}

impl Vm {
    pub fn with_pages(pages: usize) -> Vm {
        let mut labels = Vec::with_capacity(LABEL_COUNT as _);
        labels.resize(LABEL_COUNT as _, 0);
        let mut vm = Vm {
            current_task: 0,
            tasks: [
                Task::new_terminal(),
                Task::new_background(),
                Task::new_background(),
                Task::new_background(),
                Task::new_background(),
            ],
            last_error: None,
            handler: 0,
            wordlist: Wordlist::with_capacity(1000),
            data_space: DataSpace::new(pages),
            tkn: Some(String::with_capacity(64)),
            outbuf: Some(String::with_capacity(128)),
            hldbuf: String::with_capacity(128),
            references: ForwardReferences::new(),
            now: 0,
            tick: 0,
            clock_log: Vec::new(),
            log_clock: false,
            forward_bitset: BitSet::with_capacity(LABEL_COUNT),
            resolved_bitset: BitSet::with_capacity(LABEL_COUNT),
            labels,
            steps: u64::MAX,
            script: VecDeque::new(),
            received: 0,
            shown_first: None,
            bye: 0,
            clock: Cell::new(0),
        };
        vm.add_core();
        vm.add_output();
        vm.add_tools();
        vm.add_environment();
        vm.add_facility();
        vm.add_float();
        vm.add_units();
        vm.add_file_access();
        vm.add_loader();
        vm.add_primitive("receive", receive);
        vm.load_core_fth();
        vm.bye = vm.find("bye").expect("bye");
        vm
    }

    /// A machine embedded in a host: errors stop the inner interpreter and are reported.
    pub fn new() -> Vm {
        let mut vm = Vm::with_pages(16);
        vm.handler = vm.bye;
        vm.steps = DEFAULT_STEPS;
        vm
    }

    pub fn big(pages: usize) -> Vm {
        let mut vm = Vm::with_pages(pages);
        vm.handler = vm.bye;
        vm.steps = DEFAULT_STEPS;
        vm
    }

    /// Defines `n` words of no further use.
    pub fn crowd(&mut self, n: usize) {
        for l in crowd_text(n) {
            if let Err(e) = self.eval(&l) {
                std::panic::panic_any(format!("crowd {e}"));
            }
        }
    }

    /// The interactive system: rtf.fth on top of the machine with a scripted terminal.
    pub fn repl(lines: &[String]) -> Vm {
        let mut vm = Vm::with_pages(64);
        vm.load_str(include_str!("/repo/rtf/rtf.fth"));
        if vm.last_error.is_some() {
            std::panic::panic_any(format!("rtf.fth: {:?}", vm.last_error));
        }
        vm.outbuf.as_mut().unwrap().clear();
        vm.script = lines.iter().cloned().collect();
        vm.steps = DEFAULT_STEPS;
        vm
    }

    /// Enter the read-eval loop and run it until the script is used up.
    pub fn run_repl(&mut self) {
        SESSION.with(|s| {
            s.borrow_mut().clear();
            s.borrow_mut().push(String::new());
        });
        let cold = self.find("cold").expect("cold");
        self.execute_word(cold);
        self.run();
        self.flush_capture();
    }

    fn flush_capture(&mut self) {
        let t = crate::capture::take();
        let rest = self.take_output();
        self.shown_first.get_or_insert(t.len());
        SESSION.with(|s| {
            let mut s = s.borrow_mut();
            if s.is_empty() {
                s.push(String::new());
            }
            let l = s.last_mut().unwrap();
            l.push_str(&t);
            l.push_str(&rest);
        });
    }

    fn push_mark(&mut self, _line: &str) {
        SESSION.with(|s| s.borrow_mut().push(String::new()));
    }

    /// Evaluate one line of text as a host does. After an error the machine is reset.
    pub fn eval(&mut self, line: &str) -> Result<(), i64> {
        self.set_source(line);
        self.evaluate_input();
        match self.last_error {
            None => Ok(()),
            Some(e) => Err(isize::from(e) as i64),
        }
    }

    /// As `eval`, and reset after an error as hosts do.
    pub fn eval_reset(&mut self, line: &str) -> Result<(), i64> {
        let r = self.eval(line);
        if r.is_err() {
            self.host_reset();
        }
        r
    }

    /// Evaluate a line with the Forth loop `evaluate-input` instead of the host's loop.
    pub fn eval_forth(&mut self, line: &str) -> Result<(), i64> {
        self.set_source(line);
        self.set_error(None);
        let xt = self.find("evaluate-input").expect("evaluate-input");
        self.execute_word(xt);
        self.run();
        match self.last_error {
            None => Ok(()),
            Some(e) => Err(isize::from(e) as i64),
        }
    }

    /// What a host does after an error.
    pub fn host_reset(&mut self) {
        self.clear_stacks();
        self.reset();
    }

    pub fn take_output(&mut self) -> String {
        match self.outbuf.as_mut() {
            Some(b) => {
                let r = b.clone();
                b.clear();
                r
            }
            None => {
                self.outbuf = Some(String::new());
                String::from("<no output buffer>")
            }
        }
    }
    pub fn output_buffer_present(&self) -> bool {
        self.outbuf.is_some()
    }
    pub fn reserve_output(&mut self, n: usize) {
        self.outbuf.as_mut().unwrap().reserve(n);
        self.hldbuf.reserve(256);
    }

    /// Data stack, bottom first.
    pub fn stack(&mut self) -> Vec<i64> {
        let s = &self.tasks[self.current_task].s_stk;
        (0..s.len as usize).map(|i| s.inner[i] as i64).collect()
    }
    pub fn fstack(&mut self) -> Vec<f64> {
        let s = &self.tasks[self.current_task].f_stk;
        (0..s.len as usize).map(|i| s.inner[i]).collect()
    }
    pub fn push(&mut self, v: i64) {
        self.s_stack().push(v as isize)
    }
    pub fn fpush(&mut self, v: f64) {
        self.f_stack().push(v)
    }
    pub fn clear(&mut self) {
        self.clear_stacks();
    }
    pub fn rdepth(&mut self) -> usize {
        self.r_stack().len as usize
    }
    pub fn cdepth(&mut self) -> usize {
        self.c_stack().len as usize
    }
    pub fn here(&mut self) -> usize {
        self.data_space.here()
    }
    pub fn start(&self) -> usize {
        self.data_space.start()
    }
    pub fn limit(&self) -> usize {
        self.data_space.limit()
    }
    /// Bytes of the data space.
    pub fn bytes(&self, addr: usize, len: usize) -> &[u8] {
        assert!(addr >= self.start() && len <= self.limit() - addr);
        unsafe { std::slice::from_raw_parts(addr as *const u8, len) }
    }
    pub fn bytes_mut(&mut self, addr: usize, len: usize) -> &mut [u8] {
        assert!(addr >= self.start() && len <= self.limit() - addr);
        unsafe { std::slice::from_raw_parts_mut(addr as *mut u8, len) }
    }
    pub fn cell(&self, addr: usize) -> i64 {
        i64::from_le_bytes(self.bytes(addr, 8).try_into().unwrap())
    }
    pub fn base(&self) -> i64 {
        self.cell(self.data_space.system_variables().base_addr())
    }
    pub fn xt(&mut self, name: &str) -> Option<usize> {
        self.find(name)
    }
    pub fn is_compiling(&mut self) -> bool {
        self.state().is_compiling
    }
    pub fn add_host_word(&mut self, name: &str, f: fn(&mut Vm)) {
        self.add_primitive(name, f)
    }
    pub fn set_bye_handler(&mut self) {
        self.handler = self.bye;
    }
    pub fn err(&self) -> Option<i64> {
        self.last_error.map(|e| isize::from(e) as i64)
    }
    pub fn task_index(&self) -> usize {
        self.current_task
    }
    pub fn task_stacks(&self, i: usize) -> (Vec<i64>, Vec<f64>) {
        let t = &self.tasks[i];
        (
            (0..t.s_stk.len as usize).map(|k| t.s_stk.inner[k] as i64).collect(),
            (0..t.f_stk.len as usize).map(|k| t.f_stk.inner[k]).collect(),
        )
    }
    pub fn is_awake(&self, i: usize) -> bool {
        self.tasks[i].awake
    }
    /// How far the clock has advanced by being read.
    pub fn clock_value(&self) -> u64 {
        self.clock.get()
    }
    pub fn count_step(&mut self) {
        self.steps = self.steps.wrapping_sub(1);
        if self.steps == 0 {
            std::panic::resume_unwind(Box::new(OutOfSteps));
        }
    }
}

pub const DEFAULT_STEPS: u64 = 60_000_000;

impl Core for Vm {
    fn last_error(&self) -> Option<Exception> {
        self.last_error
    }
    fn set_error(&mut self, e: Option<Exception>) {
        self.last_error = e;
    }
    fn handler(&self) -> usize {
        self.handler
    }
    fn set_handler(&mut self, h: usize) {
        self.handler = h;
    }
    fn data_space(&mut self) -> &mut DataSpace {
        &mut self.data_space
    }
    fn data_space_const(&self) -> &DataSpace {
        &self.data_space
    }
    fn hold_buffer(&mut self) -> &mut String {
        &mut self.hldbuf
    }
    fn output_buffer(&mut self) -> &mut Option<String> {
        &mut self.outbuf
    }
    fn set_output_buffer(&mut self, buffer: String) {
        self.outbuf = Some(buffer);
    }
    fn source_id(&self) -> isize {
        self.tasks[self.current_task].state.source_id
    }
    fn input_buffer(&mut self) -> &mut Option<String> {
        let source_id = self.source_id();
        if source_id > 0 {
            &mut self.lines_mut()[source_id as usize - 1]
        } else {
            &mut self.tasks[self.current_task].inbuf
        }
    }
    fn set_input_buffer(&mut self, buffer: String) {
        *self.input_buffer() = Some(buffer);
    }
    fn files(&self) -> &Vec<Option<File>> {
        &self.tasks[self.current_task].files
    }
    fn files_mut(&mut self) -> &mut Vec<Option<File>> {
        &mut self.tasks[self.current_task].files
    }
    fn sources(&self) -> &Vec<Option<Source>> {
        &self.tasks[self.current_task].sources
    }
    fn sources_mut(&mut self) -> &mut Vec<Option<Source>> {
        &mut self.tasks[self.current_task].sources
    }
    fn lines(&self) -> &Vec<Option<String>> {
        &self.tasks[self.current_task].lines
    }
    fn lines_mut(&mut self) -> &mut Vec<Option<String>> {
        &mut self.tasks[self.current_task].lines
    }
    fn last_token(&mut self) -> &mut Option<String> {
        &mut self.tkn
    }
    fn set_last_token(&mut self, buffer: String) {
        self.tkn = Some(buffer);
    }
    fn s_stack(&mut self) -> &mut Stack<isize> {
        &mut self.tasks[self.current_task].s_stk
    }
    fn r_stack(&mut self) -> &mut Stack<isize> {
        &mut self.tasks[self.current_task].r_stk
    }
    fn c_stack(&mut self) -> &mut Stack<Control> {
        &mut self.tasks[self.current_task].c_stk
    }
    fn f_stack(&mut self) -> &mut Stack<f64> {
        &mut self.tasks[self.current_task].f_stk
    }
    fn wordlist_mut(&mut self) -> &mut Wordlist<Self> {
        &mut self.wordlist
    }
    fn wordlist(&self) -> &Wordlist<Self> {
        &self.wordlist
    }
    fn state(&mut self) -> &mut State {
        self.count_step();
        &mut self.tasks[self.current_task].state
    }
    fn references(&mut self) -> &mut ForwardReferences {
        &mut self.references
    }
    fn system_time_ns(&self) -> u64 {
        let t = self.now + self.clock.get();
        self.clock.set(self.clock.get() + self.tick);
        t
    }
    fn current_task(&self) -> usize {
        self.current_task
    }
    fn set_current_task(&mut self, i: usize) {
        self.count_step();
        if i < NUM_TASKS {
            self.current_task = i;
        }
    }
    fn awake(&self, i: usize) -> bool {
        // Guard against scheduling for ever.
        let n = AWAKE.with(|a| {
            let n = a.get() + 1;
            a.set(n);
            n
        });
        if n > 200_000_000 {
            std::panic::resume_unwind(Box::new(OutOfSteps));
        }
        i < NUM_TASKS && self.tasks[i].awake
    }
    fn set_awake(&mut self, i: usize, v: bool) {
        if i < NUM_TASKS {
            self.tasks[i].awake = v;
        }
    }
    fn forward_bitset(&self) -> &BitSet {
        &self.forward_bitset
    }
    fn forward_bitset_mut(&mut self) -> &mut BitSet {
        &mut self.forward_bitset
    }
    fn resolved_bitset(&self) -> &BitSet {
        &self.resolved_bitset
    }
    fn resolved_bitset_mut(&mut self) -> &mut BitSet {
        &mut self.resolved_bitset
    }
    fn labels(&self) -> &Vec<usize> {
        &self.labels
    }
    fn labels_mut(&mut self) -> &mut Vec<usize> {
        &mut self.labels
    }
}

thread_local! {
    pub static AWAKE: Cell<u64> = const { Cell::new(0) };
}

impl Environment for Vm {}
impl Facility for Vm {}
impl Float for Vm {}
impl Units for Vm {}
impl FileAccess for Vm {}
impl HasLoader for Vm {}
impl Output for Vm {}
impl Tools for Vm {}
