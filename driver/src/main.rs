//! Replays inputs against the real code: one request per line on stdin, one answer per line on stdout.
//! `ok ...`, `panic ...`; a crash or a hang of the process is the answer to the request being served.
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

mod big;
mod jsbig;
mod mem;
mod par;
mod rm;
mod ser;
#[cfg(feature = "states")]
mod st;
mod tok;
mod track;
mod val;

#[global_allocator]
static ALLOC: track::Track = track::Track;

pub fn hex_to_limbs(s: &str) -> (bool, Vec<u64>) {
    let (neg, h) = match s.strip_prefix('-') {
        Some(h) => (true, h),
        None => (false, s),
    };
    let b = h.as_bytes();
    let mut v = Vec::new();
    let mut end = b.len();
    while end > 0 {
        let st = end.saturating_sub(16);
        v.push(u64::from_str_radix(&h[st..end], 16).unwrap());
        end = st;
    }
    while v.last() == Some(&0) {
        v.pop();
    }
    (neg, v)
}

pub fn limbs_to_hex(neg: bool, v: &[u64]) -> String {
    let mut s = String::new();
    if neg {
        s.push('-');
    }
    s.push_str("0x");
    let mut any = false;
    for d in v.iter().rev() {
        if any {
            s.push_str(&format!("{d:016x}"));
        } else if *d != 0 {
            s.push_str(&format!("{d:x}"));
            any = true;
        }
    }
    if !any {
        s.push('0');
    }
    s
}

fn serve(line: &str) -> String {
    let a: Vec<&str> = line.split('\t').collect();
    match a[0] {
        "jb" => jsbig::serve(&a[1..]),
        "bu" => big::serve_uint(&a[1..]),
        "bi" => big::serve_int(&a[1..]),
        "rm" => rm::serve(&a[1..]),
        "tok" => tok::serve_tok(&a[1..]),
        "parse" => par::serve_parse(&a[1..]),
        #[cfg(feature = "states")]
        "push" => st::serve(&a[1..]),
        #[cfg(feature = "states")]
        "pushany" => st::serve_any(&a[1..]),
        #[cfg(feature = "states")]
        "tojs" => st::serve_big(&a[1..]),
        #[cfg(not(feature = "states"))]
        "push" | "pushany" | "tojs" => "not-built".to_string(),
        "path" => par::serve_path(&a[1..]),
        "ser" => ser::serve(&a[1..]),
        "run" => par::serve_run(&a[1..]),
        "mem" => mem::serve(&a[1..]),
        "any" => val::serve(&a[1..]),
        "bf" => tok::serve_bf(&a[1..]),
        _ => "bad-request".to_string(),
    }
}

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("alloc-fails-g") => std::process::exit(mem::alloc_fails(false)),
        Some("alloc-fails-l") => std::process::exit(mem::alloc_fails(true)),
        _ => {}
    }
    if std::env::args().nth(1).as_deref() == Some("modify-panics") {
        std::process::exit(mem::modify_panics());
    }
    std::panic::set_hook(Box::new(|_| {}));
    let child = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(|| {
            let stdin = std::io::stdin();
            let mut out = std::io::stdout().lock();
            for line in stdin.lock().lines() {
                let line = line.unwrap();
                let r = catch_unwind(AssertUnwindSafe(|| serve(&line)));
                let s = match r {
                    Ok(s) => format!("ok {s}"),
                    Err(e) => {
                        let m = e
                            .downcast_ref::<String>()
                            .cloned()
                            .or(e.downcast_ref::<&str>().map(|x| x.to_string()))
                            .unwrap_or_default();
                        format!("panic {}", m.replace('\n', " "))
                    }
                };
                writeln!(out, "{s}").unwrap();
                out.flush().unwrap();
            }
        })
        .unwrap();
    child.join().unwrap();
}
