//! Shared parts of the conformance drivers.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI32, Ordering};

pub mod acc;
pub mod eng;
pub mod lay;
pub mod names;
pub mod pal;
pub mod rend;
pub mod rgbs;
pub mod thr;

// ---------------------------------------------------------------- environment

/// What detection finds on stdout / stderr: the `support` variable of the
/// specification (0 nothing .. 3 everything), index = fd - 1.
pub static SUPPORT: [AtomicI32; 2] = [AtomicI32::new(0), AtomicI32::new(0)];
/// Number of detections made on each stream (calls of isatty).
pub static DETECTIONS: [AtomicI32; 2] = [AtomicI32::new(0), AtomicI32::new(0)];

/// called from the interposed `isatty`; can be replaced by a scheduler
pub static HOOK: std::sync::OnceLock<fn(i32)> = std::sync::OnceLock::new();

pub fn isatty_impl(fd: i32) -> i32 {
    if fd != 1 && fd != 2 {
        return 0;
    }
    if let Some(h) = HOOK.get() {
        h(fd)
    }
    let i = (fd - 1) as usize;
    DETECTIONS[i].fetch_add(1, Ordering::SeqCst);
    let level = SUPPORT[i].load(Ordering::SeqCst);
    if cfg!(feature = "supports-color") {
        // supports-color reads TERM after asking whether the stream is a terminal
        match level {
            // (nothing may be left over from the other stream: with
            // IGNORE_IS_TERMINAL it would go on to read TERM)
            0 => std::env::remove_var("TERM"),
            1 => std::env::set_var("TERM", "xterm"),
            2 => std::env::set_var("TERM", "xterm-256color"),
            _ => std::env::set_var("TERM", "xterm-direct"),
        }
    }
    (level > 0) as i32
}

/// Defines the `isatty` the standard library will call.
#[macro_export]
macro_rules! seam {
    () => {
        #[no_mangle]
        pub extern "C" fn isatty(fd: i32) -> i32 {
            $crate::isatty_impl(fd)
        }
        #[global_allocator]
        static ALLOC: $crate::Counting = $crate::Counting;
    };
}

pub const ENV: [&str; 13] = [
    "NO_COLOR",
    "ALWAYS_COLOR",
    "CLICOLOR_FORCE",
    "FORCE_COLOR",
    "CLICOLOR",
    "TERM",
    "COLORTERM",
    "TERM_PROGRAM",
    "IGNORE_IS_TERMINAL",
    "CI",
    "GITHUB_ACTIONS",
    "TRAVIS",
    "BUILD_NUMBER",
];

pub fn clean_env() {
    for (k, _) in std::env::vars_os() {
        if k != "PATH" && k != "HOME" {
            std::env::remove_var(k)
        }
    }
}

// ---------------------------------------------------------------- allocation

pub struct Counting;
thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
        System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
        System.alloc_zeroed(l)
    }
}
/// allocations made by this thread so far
#[inline]
pub fn allocs() -> u64 {
    ALLOCS.with(|c| c.get())
}

thread_local! {
    static SPENT: Cell<u64> = const { Cell::new(0) };
}
/// runs an operation of the library and remembers how often it allocated
#[inline]
pub fn al<R>(f: impl FnOnce() -> R) -> R {
    let n = allocs();
    let r = f();
    let n = allocs() - n;
    SPENT.with(|c| c.set(c.get() + n));
    r
}
/// allocations of the operations run by `al` since the last call
#[inline]
pub fn spent() -> u64 {
    SPENT.with(|c| c.replace(0))
}

// ---------------------------------------------------------------- processes

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn write(fd: i32, buf: *const std::ffi::c_void, n: usize) -> isize;
    fn alarm(s: u32) -> u32;
}

pub fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { write(fd, b.as_ptr().cast(), b.len()) };
        if n <= 0 {
            unsafe { _exit(3) }
        }
        b = &b[n as usize..];
    }
}

/// Runs `f` in a fresh process (so process-wide state starts anew); `f`
/// returns the bytes to be written to `fd`.  Returns the wait status.
pub fn in_child(fd: i32, seconds: u32, f: impl FnOnce() -> Vec<u8>) -> i32 {
    unsafe {
        let pid = fork();
        if pid == 0 {
            alarm(seconds);
            let out = f();
            write_all(fd, &out);
            _exit(0)
        }
        assert!(pid > 0, "fork failed");
        let mut st = 0;
        while waitpid(pid, &mut st, 0) < 0 {}
        st
    }
}

// ---------------------------------------------------------------- writers

/// A fixed-capacity, allocation-free sink.
pub struct Buf<const N: usize> {
    pub len: usize,
    pub data: [u8; N],
}
impl<const N: usize> Buf<N> {
    pub const fn new() -> Self {
        Buf { len: 0, data: [0; N] }
    }
    pub fn bytes(&self) -> &[u8] {
        &self.data[..self.len]
    }
}
impl<const N: usize> Default for Buf<N> {
    fn default() -> Self {
        Self::new()
    }
}
impl<const N: usize> std::fmt::Write for Buf<N> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.len + s.len() > N {
            return Err(std::fmt::Error);
        }
        self.data[self.len..self.len + s.len()].copy_from_slice(s.as_bytes());
        self.len += s.len();
        Ok(())
    }
}

// ---------------------------------------------------------------- misc

/// splitmix64
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}

/// Silences the default panic message (a panic of the code under test is data).
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

pub fn json_bytes(b: &[u8]) -> String {
    let mut s = String::from("[");
    for (i, x) in b.iter().enumerate() {
        if i > 0 {
            s.push(',')
        }
        s.push_str(&x.to_string())
    }
    s.push(']');
    s
}
