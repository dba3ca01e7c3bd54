//! Capture of what the code under test prints to standard output (flush-output).
use std::cell::Cell;
use std::io::Write;

thread_local! {
    static FD: Cell<i32> = const { Cell::new(-1) };
    static POS: Cell<i64> = const { Cell::new(0) };
}

/// Redirect file descriptor 1 of this process to a memory file.
pub fn start() {
    unsafe {
        let fd = libc::memfd_create(b"out\0".as_ptr() as *const _, 0);
        assert!(fd >= 0);
        libc::dup2(fd, 1);
        FD.with(|f| f.set(fd));
    }
}

/// What was printed since the last call.
pub fn take() -> String {
    let _ = std::io::stdout().flush();
    written()
}

/// What reached the file descriptor since the last call; buffered text stays where it is.
pub fn written() -> String {
    let fd = FD.with(|f| f.get());
    if fd < 0 {
        return String::new();
    }
    unsafe {
        let end = libc::lseek(fd, 0, libc::SEEK_CUR);
        let start = POS.with(|p| p.get());
        let n = (end - start).max(0) as usize;
        if n == 0 {
            return String::new();
        }
        let mut buf = vec![0u8; n];
        let r = libc::pread(fd, buf.as_mut_ptr() as *mut _, n, start);
        assert!(r == n as isize);
        if end > 1 << 20 {
            libc::ftruncate(fd, 0);
            libc::lseek(fd, 0, libc::SEEK_SET);
            POS.with(|p| p.set(0));
        } else {
            POS.with(|p| p.set(end));
        }
        String::from_utf8_lossy(&buf).into_owned()
    }
}
