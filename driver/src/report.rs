//! Obligations and their outcome, one per line on stdout.
use std::io::{Read, Write};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Ok,
    Violated,
    Undecided,
}

fn clean(s: &str) -> String {
    s.chars().map(|c| if c == '\t' || c == '\n' || c == '\r' { ' ' } else { c }).collect()
}

/// group: which property the obligation serves; key: stable name of the obligation
pub fn ob(group: &str, key: &str, st: St, detail: &str) {
    let s = match st {
        St::Ok => "ok",
        St::Violated => "violated",
        St::Undecided => "undecided",
    };
    let line = format!("@OB\t{}\t{}\t{}\t{}\n", clean(group), clean(key), s, clean(detail));
    let o = std::io::stdout();
    let mut o = o.lock();
    let _ = o.write_all(line.as_bytes());
    let _ = o.flush();
}
/// a number describing what was analysed
pub fn stat(name: &str, v: u64) {
    let o = std::io::stdout();
    let mut o = o.lock();
    let _ = o.write_all(format!("@ST\t{}\t{}\n", clean(name), v).as_bytes());
}
pub fn reached(name: &str) {
    let o = std::io::stdout();
    let mut o = o.lock();
    let _ = o.write_all(format!("@FN\t{}\n", clean(name)).as_bytes());
}

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
}

/// run n tasks in forked copies of this process, at most `width` at a time.
/// Returns the tasks that did not finish (time or crash).
pub fn par(n: usize, width: usize, secs: u32, f: &dyn Fn(usize)) -> Vec<usize> {
    let _ = std::io::stdout().flush();
    let mut lost = vec![];
    if n <= 1 && secs == 0 {
        for i in 0..n {
            f(i);
        }
        return lost;
    }
    let mut running: Vec<(i32, usize)> = vec![];
    let mut next = 0;
    while next < n || !running.is_empty() {
        while next < n && running.len() < width {
            let pid = unsafe { fork() };
            if pid == 0 {
                if secs > 0 {
                    unsafe { alarm(secs) };
                }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(next)));
                let _ = std::io::stdout().flush();
                unsafe { _exit(if r.is_ok() { 0 } else { 3 }) }
            }
            running.push((pid, next));
            next += 1;
        }
        let mut st = 0;
        let p = unsafe { waitpid(-1, &mut st, 0) };
        if p <= 0 {
            break;
        }
        if let Some(i) = running.iter().position(|x| x.0 == p) {
            let (_, t) = running.remove(i);
            if st != 0 {
                lost.push(t);
            }
        }
    }
    lost
}
