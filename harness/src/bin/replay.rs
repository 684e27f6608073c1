//! Runs harnesses natively on concrete inputs.
//!
//! Reads lines `harness hex` and prints one line `harness hex verdict` each,
//! where verdict is `ok TRACE`, `assume`, `known N` or `violation ...`. Every
//! input runs in a child process of its own.
use std::ffi::{c_int, c_uint, c_void};
use std::io::{BufRead, Read, Write};

extern "C" {
    fn fork() -> c_int;
    fn waitpid(p: c_int, st: *mut c_int, o: c_int) -> c_int;
    fn alarm(s: c_uint) -> c_uint;
    fn _exit(c: c_int) -> !;
    fn setrlimit(r: c_int, l: *const [u64; 2]) -> c_int;
    fn pipe(f: *mut c_int) -> c_int;
    fn write(f: c_int, b: *const c_void, n: usize) -> isize;
    fn read(f: c_int, b: *mut c_void, n: usize) -> isize;
    fn close(f: c_int) -> c_int;
}

static mut OUT: c_int = 1;

fn finish(s: &str) -> ! {
    unsafe {
        write(OUT, s.as_ptr().cast(), s.len());
        _exit(0)
    }
}

fn parse(x: &str) -> Vec<u8> {
    (0..x.len() / 2).map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn main() {
    let secs: c_uint = std::env::args().nth(1).and_then(|s| s.parse().ok()).unwrap_or(10);
    std::panic::set_hook(Box::new(|i| {
        vh::sym::native::st().on = false;
        if std::env::args().nth(1).as_deref() == Some("--one") {
            println!("violation {i}");
            std::process::exit(0);
        }
        let loc = i.location().map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column())).unwrap_or_default();
        let msg = i.payload_as_str().unwrap_or("").replace('\n', " ");
        finish(&format!("violation panic: {loc} {msg}"))
    }));
    if std::env::args().nth(1).as_deref() == Some("--one") {
        // In this process: for Miri and debuggers.
        let h = std::env::args().nth(2).unwrap();
        let x = std::env::args().nth(3).unwrap_or_default();
        let input = parse(&x);
        let f = vh::find(&h).expect("harness");
        let s = vh::sym::native::st();
        s.input = input;
        s.end = |m| {
            vh::sym::native::st().on = false;
            println!("{m}");
            std::process::exit(0)
        };
        s.on = true;
        f();
        s.on = false;
        println!("ok {:016x}", vh::sym::native::st().trace);
        return;
    }
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for l in stdin.lock().lines() {
        let l = l.unwrap();
        let mut it = l.split(' ');
        let (h, x) = (it.next().unwrap(), it.next().unwrap_or(""));
        let input = parse(x);
        let Some(f) = vh::find(h) else {
            writeln!(out, "{h} {x} missing").unwrap();
            continue;
        };
        let mut p = [0; 2];
        unsafe {
            assert!(pipe(p.as_mut_ptr()) == 0);
            let pid = fork();
            if pid == 0 {
                close(p[0]);
                OUT = p[1];
                alarm(secs);
                // At most 4 GiB of memory: RLIMIT_AS.
                setrlimit(9, &[4 << 30; 2]);
                let s = vh::sym::native::st();
                s.input = input;
                s.end = |m| {
                    vh::sym::native::st().on = false;
                    finish(m)
                };
                s.on = true;
                f();
                s.on = false;
                let s = vh::sym::native::st();
                finish(&format!("ok {:016x}", s.trace));
            }
            close(p[1]);
            let mut v = vec![];
            let mut b = [0u8; 512];
            loop {
                let n = read(p[0], b.as_mut_ptr().cast(), b.len());
                if n <= 0 {
                    break;
                }
                v.extend_from_slice(&b[..n as usize]);
            }
            close(p[0]);
            let mut st = 0;
            waitpid(pid, &mut st, 0);
            if v.is_empty() {
                let sig = st & 0x7f;
                v = if sig == 14 {
                    b"violation hang: no result within the time limit".to_vec()
                } else {
                    format!("violation crash: signal {sig} status {st}").into_bytes()
                };
            }
            writeln!(out, "{h} {x} {}", String::from_utf8_lossy(&v)).unwrap();
        }
    }
    let _ = std::io::stdin().read(&mut [0u8; 1]);
    out.flush().unwrap();
}
