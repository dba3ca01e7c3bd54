//! C10: file words against a model of files, directory entries and open files.
use crate::engine::*;
use crate::vm::Vm;
use std::collections::BTreeMap;
use std::path::Path;

pub fn property() -> Property {
    Property {
        id: "C10",
        rule: "Histories of CREATE-FILE OPEN-FILE CLOSE-FILE DELETE-FILE READ-FILE WRITE-FILE FILE-SIZE FILE-POSITION RESIZE-FILE REPOSITION-FILE over a few names in a scratch directory, with all modes, several handles on one file, deleted open files, directories, missing directories, names of 256 and 257 bytes, invalid ids, modes, sizes and failing lines in between. Every result, the whole data space after reads and at the end the directory tree on disk are compared with a model of inodes. Non-trivial: data was written and read back through at least two handles, or an operation failed after data was written.",
        families: vec![
            Family { name: "history", quick: 110_000, thorough: 500_000, run: history },
            Family { name: "errors", quick: 70_000, thorough: 300_000, run: errors },
            Family { name: "big", quick: 20_000, thorough: 200_000, run: big },
        ],
        probes: vec![],
        assumptions: vec!["ordinary files on a local file system with space left", "sizes beyond 100 kB only in sparse files, up to 1 TB"],
    }
}

struct Open {
    inode: usize,
    pos: u64,
    r: bool,
    w: bool,
}

struct Fs {
    inodes: Vec<Vec<u8>>,
    dir: BTreeMap<String, usize>,
    open: BTreeMap<i64, Open>,
}

struct H<'a, 'b> {
    src: &'a mut Src,
    ctx: &'b mut Ctx,
    vm: Vm,
    fs: Fs,
    buf: usize,
    len: usize,
    closed: Vec<i64>,
    readers: std::collections::BTreeSet<i64>,
    writers: std::collections::BTreeSet<i64>,
    failed: bool,
    depth: usize,
    /// Files open at once
    most: usize,
}

const NAMES: &[&str] = &["a", "b", "sub/x", "sub/y", "\u{e9} z", "c.txt"];

/// A path of exactly `total` bytes to `n`.
fn padded(n: &str, total: usize) -> String {
    let k = total - n.len();
    let mut p = "./".repeat(k / 2);
    if k % 2 == 1 {
        p.push('/');
    }
    p.push_str(n);
    p
}

/// A canonical name for a path, if it is one of a file.
fn canon(path: &str) -> String {
    path.split('/').filter(|p| !p.is_empty() && *p != ".").collect::<Vec<_>>().join("/")
}

impl<'a, 'b> H<'a, 'b> {
    fn new(src: &'a mut Src, ctx: &'b mut Ctx) -> Result<H<'a, 'b>, Fail> {
        let dir = ctx.scratch().clone();
        let home = dir.join("work");
        let io = |e: std::io::Error| panic!("scratch directory: {e}");
        if home.exists() {
            std::fs::remove_dir_all(&home).unwrap_or_else(io);
        }
        std::fs::create_dir_all(home.join("sub")).unwrap_or_else(io);
        std::env::set_current_dir(&home).unwrap_or_else(io);
        // Now and then many files, now and then much data.
        let most = if src.chance(1, 60) { 70 } else { 10 };
        let (mut vm, len) = if src.chance(1, 80) { (Vm::big(32), 80_000) } else { (Vm::new(), 4000) };
        let r = vm.eval(&format!("create buf {} allot : in-word dup drop ;", len));
        ensure!(r.is_ok(), "setup", "{r:?}");
        let _ = vm.eval("buf");
        let buf = vm.stack()[0] as usize;
        vm.clear();
        Ok(H { src, ctx, vm, fs: Fs { inodes: vec![], dir: BTreeMap::new(), open: BTreeMap::new() }, buf, len, closed: vec![], readers: Default::default(), writers: Default::default(), failed: false, depth: 0, most })
    }

    /// Run a file word; its results.
    fn call(&mut self, args: &str, word: &str, results: usize) -> Result<Vec<i64>, Fail> {
        let line = match self.src.below(4) {
            0 => format!("-77 {args} {} execute", format!("' {word}")),
            1 => format!(": t-t {word} ; -77 {args} t-t"),
            _ => format!("-77 {args} {word}"),
        };
        note!(self.ctx, "{}", line);
        let r = if self.src.chance(1, 5) { self.vm.eval_forth(&line) } else { self.vm.eval(&line) };
        ensure!(r.is_ok(), "exception", "{line}: {r:?}");
        let s = self.vm.stack();
        ensure!(s.len() == results + 1 && s[0] == -77, "stack effect", "{line}: stack {s:?}, expected {results} results");
        self.vm.clear();
        Ok(s[1..].to_vec())
    }

    fn id(&mut self) -> i64 {
        let open: Vec<i64> = self.fs.open.keys().copied().collect();
        if !open.is_empty() && !self.src.chance(1, 10) {
            return *self.src.pick(&open);
        }
        let c = self.closed.clone();
        if !c.is_empty() && self.src.chance(1, 2) {
            return *self.src.pick(&c);
        }
        *self.src.pick(&[0i64, -1, 99, i64::MAX, i64::MIN, 1, 2, 3, -2, 1 << 32, (1 << 32) + 1, 256, 257])
    }

    /// A path and the canonical name of the file it denotes, if it can exist.
    fn path(&mut self) -> (String, Option<String>) {
        let n = *self.src.pick(NAMES);
        match self.src.weighted(&[20, 2, 2, 1, 1, 1, 1, 2, 1]) {
            0 => (n.into(), Some(n.into())),
            1 => (format!("./{n}"), Some(n.into())),
            2 => {
                // 256 bytes are allowed.
                let total = *self.src.pick(&[256usize, 255, 200]);
                let p = padded(n, total);
                (p, Some(n.into()))
            }
            3 => {
                let total = *self.src.pick(&[257usize, 258, 300, 512]);
                let p = padded(n, total);
                (p, None)
            }
            4 => ("".into(), None),
            5 => (format!("missing/{n}"), None),
            6 => ("a\0b".into(), None),
            7 => ("sub".into(), None),
            _ => (format!("{n}/"), None),
        }
    }
    fn put(&mut self, at: usize, b: &[u8]) {
        self.vm.bytes_mut(self.buf + at, b.len()).copy_from_slice(b);
    }
    fn fail_seen(&mut self) {
        self.failed = true;
    }

    fn open(&mut self, create: bool) -> R {
        if self.fs.open.len() > self.most {
            return Ok(());
        }
        let (path, name) = self.path();
        let at = self.src.usize(20);
        self.put(at, path.as_bytes());
        let bad = self.src.chance(1, 12);
        let fam = if bad { *self.src.pick(&[3i64, -1, i64::MIN, i64::MAX, 4, 256]) } else { self.src.range(0, 2) };
        let word = if create { "create-file" } else { "open-file" };
        let fam_text = match fam {
            0 if self.src.chance(1, 2) => "r/o".to_string(),
            1 if self.src.chance(1, 2) => "w/o bin".to_string(),
            2 if self.src.chance(1, 2) => "r/w".to_string(),
            n => n.to_string(),
        };
        note!(self.ctx, "path of {} bytes {:?}", path.len(), path);
        if name.as_deref() == Some("") { return Ok(()) }
        // A directory can be opened for reading only: not specified here.
        if name.is_none() && fam == 0 && !create && path == "sub" {
            return Ok(());
        }
        let r = self.call(&format!("{} {} {fam_text}", self.buf + at, path.len()), word, 2)?;
        let ok = match &name {
            _ if !(0..=2).contains(&fam) => false,
            None => false,
            Some(_) if create => fam != 0,
            Some(n) => self.fs.dir.contains_key(n),
        };
        if !ok {
            self.fail_seen();
            ensure!(r[1] != 0, "ior", "{word} of {path:?} with mode {fam}: ior 0");
            return Ok(());
        }
        let n = name.unwrap();
        ensure!(canon(&path) == n, "harness", "{path:?}");
        ensure!(r[1] == 0, "ior", "{word} of {path:?} with mode {fam}: ior {}", r[1]);
        ensure!(r[0] > 0 && !self.fs.open.contains_key(&r[0]), "file id", "{word}: file id {} is not new", r[0]);
        let inode = match self.fs.dir.get(&n) {
            Some(&i) => {
                if create {
                    self.fs.inodes[i].clear();
                }
                i
            }
            None => {
                self.fs.inodes.push(vec![]);
                self.fs.dir.insert(n, self.fs.inodes.len() - 1);
                self.fs.inodes.len() - 1
            }
        };
        self.fs.open.insert(r[0], Open { inode, pos: 0, r: fam != 1, w: fam != 0 });
        self.closed.retain(|&x| x != r[0]);
        Ok(())
    }
    fn close(&mut self) -> R {
        let id = self.id();
        let r = self.call(&format!("{id}"), "close-file", 1)?;
        let known = self.fs.open.remove(&id).is_some();
        if !known { self.fail_seen() }
        ensure!((r[0] == 0) == known, "ior", "close-file of {id}: ior {}", r[0]);
        if known {
            self.closed.push(id);
        }
        Ok(())
    }
    fn delete(&mut self) -> R {
        let (path, name) = self.path();
        let at = self.src.usize(20);
        self.put(at, path.as_bytes());
        note!(self.ctx, "path {:?}", path);
        let r = self.call(&format!("{} {}", self.buf + at, path.len()), "delete-file", 1)?;
        let ok = name.map_or(false, |n| self.fs.dir.remove(&n).is_some());
        if !ok { self.fail_seen() }
        ensure!((r[0] == 0) == ok, "ior", "delete-file of {path:?}: ior {}", r[0]);
        Ok(())
    }
    fn write(&mut self) -> R {
        let id = self.id();
        let n = match self.src.below(4) {
            0 => self.src.usize(4),
            1 => self.src.usize(1500),
            2 if self.len > 4000 => self.src.usize(self.len - 60),
            _ => self.src.usize(40),
        };
        let at = self.src.usize(30);
        let base = self.src.u64() as u8;
        let data: Vec<u8> = (0..n).map(|i| base.wrapping_add((i * 31) as u8)).collect();
        if let Some(o) = self.fs.open.get(&id) {
            if o.pos > 100_000 {
                return Ok(());
            }
        }
        self.put(at, &data);
        note!(self.ctx, "{} bytes starting with {:?}", n, &data[..n.min(6)]);
        let r = self.call(&format!("{} {n} {id}", self.buf + at), "write-file", 1)?;
        match self.fs.open.get_mut(&id) {
            Some(o) if o.w => {
                ensure!(r[0] == 0, "ior", "write-file to {id}: ior {}", r[0]);
                let f = &mut self.fs.inodes[o.inode];
                let p = o.pos as usize;
                if n > 0 {
                    if f.len() < p + n {
                        f.resize(p + n, 0);
                    }
                    f[p..p + n].copy_from_slice(&data);
                    o.pos += n as u64;
                    self.writers.insert(id);
                }
            }
            Some(_) if n == 0 => {}
            _ => {
                self.fail_seen();
                ensure!(r[0] != 0, "ior", "write-file to {id}: ior 0");
            }
        }
        Ok(())
    }
    fn read(&mut self) -> R {
        let id = self.id();
        let n = match self.src.below(4) {
            0 => self.src.usize(4),
            1 => self.src.usize(3000),
            2 if self.len > 4000 => self.src.usize(self.len - 60),
            _ => self.src.usize(40),
        };
        let at = 8 + self.src.usize(30);
        let fill = self.src.u64() as u8;
        let (buf, len) = (self.buf, self.len);
        self.vm.bytes_mut(buf, len).fill(fill);
        let r = self.call(&format!("{} {n} {id}", self.buf + at), "read-file", 2)?;
        let mut want = vec![fill; self.len];
        match self.fs.open.get_mut(&id) {
            Some(o) if o.r => {
                ensure!(r[1] == 0, "ior", "read-file from {id}: ior {}", r[1]);
                let f = &self.fs.inodes[o.inode];
                let p = (o.pos as usize).min(f.len());
                let k = n.min(f.len() - p);
                ensure!(r[0] == k as i64, "count", "read-file of {n} bytes from {id} at {} of {}: {} bytes", o.pos, f.len(), r[0]);
                want[at..at + k].copy_from_slice(&f[p..p + k]);
                o.pos += k as u64;
                if k > 0 { self.readers.insert(id); }
            }
            Some(_) if n == 0 => {}
            _ => {
                self.fail_seen();
                ensure!(r[1] != 0, "ior", "read-file from {id}: ior 0");
            }
        }
        let got = self.vm.bytes(self.buf, self.len);
        if got != &want[..] {
            let i = (0..self.len).find(|&i| got[i] != want[i]).unwrap();
            return fail("data", format!("read-file of {n} bytes from {id}: byte {} of the buffer is {} expected {}", i as i64 - at as i64, got[i], want[i]));
        }
        Ok(())
    }
    fn ud(&mut self) -> (i64, i64) {
        let lo = match self.src.weighted(&[6, 3, 1, 1]) {
            0 => self.src.range(0, 60),
            1 => self.src.range(0, 5000),
            2 => *self.src.pick(&[-1i64, i64::MIN, -2]),
            _ => self.src.range(0, 100_000),
        };
        let hi = if self.src.chance(1, 10) { *self.src.pick(&[1i64, -1, i64::MIN]) } else { 0 };
        (lo, hi)
    }
    fn size(&mut self) -> R {
        let id = self.id();
        let r = self.call(&format!("{id}"), "file-size", 3)?;
        match self.fs.open.get(&id) {
            Some(o) => {
                let n = self.fs.inodes[o.inode].len() as i64;
                ensure!(r == [n, 0, 0], "size", "file-size of {id}: {r:?} expected {n} 0 0");
            }
            None => ensure!(r[2] != 0, "ior", "file-size of {id}: ior 0"),
        }
        Ok(())
    }
    fn position(&mut self) -> R {
        let id = self.id();
        let r = self.call(&format!("{id}"), "file-position", 3)?;
        match self.fs.open.get(&id) {
            Some(o) => ensure!(r == [o.pos as i64, 0, 0], "position", "file-position of {id}: {r:?} expected {} 0 0", o.pos),
            None => ensure!(r[2] != 0, "ior", "file-position of {id}: ior 0"),
        }
        Ok(())
    }
    fn resize(&mut self) -> R {
        let id = self.id();
        let (lo, hi) = self.ud();
        let r = self.call(&format!("{lo} {hi} {id}"), "resize-file", 1)?;
        match self.fs.open.get_mut(&id) {
            Some(o) if o.w && lo >= 0 && hi == 0 => {
                ensure!(r[0] == 0, "ior", "resize-file of {id} to {lo}: ior {}", r[0]);
                self.fs.inodes[o.inode].resize(lo as usize, 0);
                // The position stays where it is, even if that is now behind the end.
                let pos = o.pos as i64;
                let p = self.call(&format!("{id}"), "file-position", 3)?;
                ensure!(p == [pos, 0, 0], "position", "file-position of {id} after resize-file: {p:?}, it was {pos}");
            }
            _ => {
                self.fail_seen();
                ensure!(r[0] != 0, "ior", "resize-file of {id} to {lo} {hi}: ior 0");
            }
        }
        Ok(())
    }
    fn reposition(&mut self) -> R {
        let id = self.id();
        let (mut lo, hi) = self.ud();
        if self.src.chance(1, 3) {
            // Near the end.
            if let Some(o) = self.fs.open.get(&id) {
                lo = (self.fs.inodes[o.inode].len() as i64 + self.src.range(-3, 3)).max(0);
            }
        } else if self.src.chance(1, 12) {
            lo = 1 << 30;
        }
        let r = self.call(&format!("{lo} {hi} {id}"), "reposition-file", 1)?;
        match self.fs.open.get_mut(&id) {
            Some(o) if lo >= 0 && hi == 0 => {
                ensure!(r[0] == 0, "ior", "reposition-file of {id} to {lo}: ior {}", r[0]);
                o.pos = lo as u64;
            }
            _ => {
                self.fail_seen();
                ensure!(r[0] != 0, "ior", "reposition-file of {id} to {lo} {hi}: ior 0");
            }
        }
        Ok(())
    }

    fn step(&mut self) -> R {
        match self.src.weighted(&[5, 5, 2, 2, 9, 9, 3, 3, 3, 5, 1]) {
            0 => self.open(true),
            1 => self.open(false),
            2 => self.close(),
            3 => self.delete(),
            4 => self.write(),
            5 => self.read(),
            6 => self.size(),
            7 => self.position(),
            8 => self.resize(),
            9 => self.reposition(),
            _ => {
                // Open files survive an error.
                let line = *self.src.pick(&["1 0 /", "undefined-word", "drop", ": x if ;", "abort"]);
                note!(self.ctx, "{}", line);
                let _ = self.vm.eval(line);
                self.vm.host_reset();
                Ok(())
            }
        }
    }
    fn on_disk(&mut self) -> R {
        fn walk(p: &Path, rel: &str, o: &mut BTreeMap<String, Vec<u8>>) {
            for e in std::fs::read_dir(p).unwrap_or_else(|e| panic!("scratch directory: {e}")) {
                let e = e.unwrap();
                let name = format!("{rel}{}", e.file_name().to_string_lossy());
                if e.file_type().unwrap().is_dir() {
                    walk(&e.path(), &format!("{name}/"), o);
                    if rel.is_empty() && name == "sub" { continue }
                    o.insert(format!("{name}/"), vec![]);
                } else {
                    o.insert(name, std::fs::read(e.path()).unwrap_or_else(|e| panic!("scratch file: {e}")));
                }
            }
        }
        let mut got = BTreeMap::new();
        walk(&self.ctx.scratch().join("work"), "", &mut got);
        let want: BTreeMap<String, Vec<u8>> = self.fs.dir.iter().map(|(n, &i)| (n.clone(), self.fs.inodes[i].clone())).collect();
        let (a, b): (Vec<_>, Vec<_>) = (got.keys().collect(), want.keys().collect());
        ensure!(a == b, "directory", "files on disk {a:?} expected {b:?}");
        for (n, d) in &got {
            let w = &want[n];
            if d != w {
                let i = (0..d.len().min(w.len())).find(|&i| d[i] != w[i]);
                return fail("contents", format!("file {n:?} has {} bytes, expected {}; first difference at {i:?}", d.len(), w.len()));
            }
        }
        Ok(())
    }
    fn finish(&mut self) -> R {
        self.on_disk()?;
        let both: std::collections::BTreeSet<i64> = self.readers.union(&self.writers).copied().collect();
        if (!self.writers.is_empty() && !self.readers.is_empty() && both.len() > 1) || (self.failed && !self.writers.is_empty()) {
            self.ctx.nontrivial();
        }
        let _ = self.depth;
        let _ = std::env::set_current_dir(self.ctx.scratch());
        Ok(())
    }
}

fn history(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = 8 + src.usize(40);
    let mut h = H::new(src, ctx)?;
    h.open(true)?;
    if h.most > 10 {
        let k = h.src.usize(80);
        for _ in 0..k {
            if h.src.chance(1, 20) {
                h.close()?;
            } else {
                let create = h.src.chance(1, 8);
                h.open(create)?;
            }
        }
        h.ctx.label("many files");
    }
    if h.len > 4000 {
        h.ctx.label("much data");
    }
    for _ in 0..n {
        h.step()?;
    }
    h.finish()
}

/// Few files, mostly invalid requests.
fn errors(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = 4 + src.usize(12);
    let mut h = H::new(src, ctx)?;
    h.open(true)?;
    h.write()?;
    for _ in 0..n {
        match h.src.below(8) {
            0 | 1 => {
                let c = h.src.chance(1, 2);
                h.open(c)?
            }
            2 => h.delete()?,
            3 => h.close()?,
            4 => h.write()?,
            5 => h.read()?,
            6 => h.resize()?,
            _ => h.reposition()?,
        }
    }
    h.on_disk()?;
    h.finish()
}

/// Sizes and positions far beyond what fits in memory, in a file with holes.
fn big(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = 6 + src.usize(20);
    let mut h = H::new(src, ctx)?;
    h.put(0, b"big");
    let r = h.call(&format!("{} 3 2", h.buf), "create-file", 2)?;
    ensure!(r[1] == 0, "ior", "create-file: {r:?}");
    let mut ids = vec![r[0]];
    let r = h.call(&format!("{} 3 2", h.buf), "open-file", 2)?;
    ensure!(r[1] == 0 && r[0] != ids[0], "ior", "open-file: {r:?}");
    ids.push(r[0]);
    let mut size = 0u64;
    let mut pos = [0u64; 2];
    let mut data: BTreeMap<u64, u8> = BTreeMap::new();
    for _ in 0..n {
        let k = h.src.usize(2);
        let id = ids[k];
        let near = |src: &mut Src, data: &BTreeMap<u64, u8>| -> u64 {
            match src.below(4) {
                0 => src.below(1 << 40),
                1 => (1u64 << src.range(10, 39)).wrapping_add(src.range(-3, 3) as u64),
                2 => size.saturating_add(src.below(20)).saturating_sub(10),
                _ => {
                    let keys: Vec<u64> = data.keys().copied().collect();
                    if keys.is_empty() { 0 } else { src.pick(&keys).saturating_add(src.below(8)).saturating_sub(4) }
                }
            }
        };
        match h.src.weighted(&[3, 5, 5, 5, 2]) {
            0 => {
                let s = near(h.src, &data);
                let r = h.call(&format!("{s} 0 {id}"), "resize-file", 1)?;
                ensure!(r[0] == 0, "ior", "resize-file to {s}: ior {}", r[0]);
                size = s;
                data = data.into_iter().filter(|x| x.0 < s).collect();
            }
            1 => {
                let p = near(h.src, &data);
                let r = h.call(&format!("{p} 0 {id}"), "reposition-file", 1)?;
                ensure!(r[0] == 0, "ior", "reposition-file to {p}: ior {}", r[0]);
                pos[k] = p;
            }
            2 => {
                let m = 1 + h.src.usize(40);
                let b: Vec<u8> = (0..m).map(|_| h.src.below(256) as u8).collect();
                h.put(10, &b);
                let r = h.call(&format!("{} {m} {id}", h.buf + 10), "write-file", 1)?;
                ensure!(r[0] == 0, "ior", "write-file at {}: ior {}", pos[k], r[0]);
                for (i, x) in b.iter().enumerate() {
                    data.insert(pos[k] + i as u64, *x);
                }
                pos[k] += m as u64;
                size = size.max(pos[k]);
                if size > 1 << 20 {
                    h.ctx.nontrivial();
                }
            }
            3 => {
                let m = h.src.usize(3000);
                let clean = vec![0xeeu8; h.len];
                h.put(0, &clean);
                let r = h.call(&format!("{} {m} {id}", h.buf + 5), "read-file", 2)?;
                let want = size.saturating_sub(pos[k]).min(m as u64);
                ensure!(r == [want as i64, 0], "count", "read-file of {m} at {} of {size}: {r:?}", pos[k]);
                for i in 0..h.len {
                    let x = h.vm.bytes(h.buf + i, 1)[0];
                    let w = if i >= 5 && ((i - 5) as u64) < want { data.get(&(pos[k] + i as u64 - 5)).copied().unwrap_or(0) } else { 0xee };
                    ensure!(x == w, "contents", "read-file of {m} at {}: byte {i} is {x}, expected {w}", pos[k]);
                }
                pos[k] += want;
            }
            _ => {
                let (lo, hi) = (near(h.src, &data), *h.src.pick(&[1i64, -1, i64::MIN]));
                let w = *h.src.pick(&["resize-file", "reposition-file"]);
                let r = h.call(&format!("{lo} {hi} {id}"), w, 1)?;
                ensure!(r[0] != 0, "ior", "{w} to {lo} {hi}: ior 0");
            }
        }
        let k = h.src.usize(2);
        let r = h.call(&format!("{}", ids[k]), "file-size", 3)?;
        ensure!(r == [size as i64, 0, 0], "size", "file-size {r:?}, expected {size}");
        let r = h.call(&format!("{}", ids[k]), "file-position", 3)?;
        ensure!(r == [pos[k] as i64, 0, 0], "position", "file-position {r:?}, expected {}", pos[k]);
    }
    for id in ids {
        let r = h.call(&format!("{id}"), "close-file", 1)?;
        ensure!(r[0] == 0, "ior", "close-file: {r:?}");
    }
    let _ = std::fs::remove_file("big");
    let _ = std::env::set_current_dir(h.ctx.scratch());
    Ok(())
}
