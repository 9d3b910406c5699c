//! A process in which nothing ever ran. It is forked off before the simulator
//! touches the library; for every question it forks once more, so that each
//! answer comes from a process in which the library runs for the first time.
use std::io::{Read, Write};
use std::os::fd::{FromRawFd, RawFd};
use std::sync::Mutex;

extern "C" {
    fn fork() -> i32;
    fn pipe2(fds: *mut i32, flags: i32) -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn close(fd: i32) -> i32;
}
const CLOEXEC: i32 = 0o2000000;
fn pipe() -> (RawFd, RawFd) {
    let mut f = [0i32; 2];
    if unsafe { pipe2(f.as_mut_ptr(), CLOEXEC) } != 0 {
        panic!("pipe")
    }
    (f[0], f[1])
}
fn file(fd: RawFd) -> std::fs::File {
    unsafe { std::fs::File::from_raw_fd(fd) }
}
fn put(f: &mut std::fs::File, b: &[u8]) -> std::io::Result<()> {
    let mut v = (b.len() as u32).to_le_bytes().to_vec();
    v.extend_from_slice(b);
    f.write_all(&v)
}
fn take(f: &mut std::fs::File) -> std::io::Result<Vec<u8>> {
    let mut n = [0u8; 4];
    f.read_exact(&mut n)?;
    let mut b = vec![0u8; u32::from_le_bytes(n) as usize];
    f.read_exact(&mut b)?;
    Ok(b)
}
static LINK: Mutex<Option<(std::fs::File, std::fs::File)>> = Mutex::new(None);

/// fork the zygote; `answer` runs in a fresh process per question
pub fn start(answer: fn(&[u8]) -> Vec<u8>) {
    let (qr, qw) = pipe();
    let (ar, aw) = pipe();
    let pid = unsafe { fork() };
    if pid < 0 {
        panic!("fork")
    }
    if pid == 0 {
        unsafe {
            close(qw);
            close(ar);
        }
        serve(file(qr), file(aw), answer);
    }
    unsafe {
        close(qr);
        close(aw);
    }
    *LINK.lock().unwrap() = Some((file(qw), file(ar)));
}
fn serve(mut q: std::fs::File, mut a: std::fs::File, answer: fn(&[u8]) -> Vec<u8>) -> ! {
    loop {
        let Ok(question) = take(&mut q) else { unsafe { _exit(0) } };
        let (r, w) = pipe();
        let pid = unsafe { fork() };
        if pid == 0 {
            unsafe {
                close(r);
                alarm(60);
            }
            let b = answer(&question);
            let _ = put(&mut file(w), &b);
            unsafe { _exit(0) }
        }
        unsafe { close(w) };
        let got = if pid < 0 { Err(std::io::Error::other("fork")) } else { take(&mut file(r)) };
        let mut status = 0;
        if pid > 0 {
            unsafe { waitpid(pid, &mut status, 0) };
        }
        let mut b = match (&got, pid) {
            (Ok(_), _) => vec![0],
            (_, p) if p < 0 => vec![2],
            _ => vec![1],
        };
        match got {
            Ok(g) => b.extend(g),
            Err(_) => b.extend(format!("the process died: {status:#x}").into_bytes()),
        }
        if put(&mut a, &b).is_err() {
            unsafe { _exit(0) }
        }
    }
}
/// Err: the harness could not ask; Ok(Err(..)): the process died
pub fn ask(question: &[u8]) -> Result<Result<Vec<u8>, String>, String> {
    let mut l = LINK.lock().unwrap_or_else(|e| e.into_inner());
    let Some((q, a)) = l.as_mut() else { return Err("no zygote".into()) };
    put(q, question).map_err(|e| e.to_string())?;
    let b = take(a).map_err(|e| e.to_string())?;
    let text = |b: &[u8]| String::from_utf8_lossy(b).into_owned();
    match b.first() {
        Some(0) => Ok(Ok(b[1..].to_vec())),
        Some(1) => Ok(Err(text(&b[1..]))),
        _ => Err(text(&b[1..])),
    }
}
