//! Fork server. `dst zygote` keeps a pristine single-threaded process image and
//! forks one child per simulated run, so that runs share nothing, every child
//! starts from the same memory image, and a deadlocked or crashed run costs
//! nothing. The parent allocates nothing between forks.
use crate::plan::{Request, Response};
use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};

const BUF: usize = 16 << 20;
static mut REQ: [u8; BUF] = [0; BUF];

fn read_full(fd: i32, mut p: *mut u8, mut n: usize) -> bool {
    while n > 0 {
        let r = unsafe { libc::read(fd, p as *mut libc::c_void, n) };
        if r <= 0 {
            return false;
        }
        n -= r as usize;
        p = unsafe { p.add(r as usize) };
    }
    true
}
fn write_full(fd: i32, mut p: *const u8, mut n: usize) {
    while n > 0 {
        let r = unsafe { libc::write(fd, p as *const libc::c_void, n) };
        if r <= 0 {
            unsafe { libc::_exit(90) };
        }
        n -= r as usize;
        p = unsafe { p.add(r as usize) };
    }
}
static mut OUT_FD: i32 = 1;
/// Called in the child exactly once: send the result and stop.
pub fn finish(resp: &Response) -> ! {
    let mut v = vec![0u8; 4];
    serde_json::to_writer(&mut v, resp).unwrap();
    let n = (v.len() - 4) as u32;
    v[..4].copy_from_slice(&n.to_le_bytes());
    unsafe {
        write_full(OUT_FD, v.as_ptr(), v.len());
        libc::_exit(0)
    }
}
fn raw_reply(s: &[u8]) {
    let n = (s.len() as u32).to_le_bytes();
    unsafe {
        write_full(OUT_FD, n.as_ptr(), 4);
        write_full(OUT_FD, s.as_ptr(), s.len());
    }
}

pub fn main() -> ! {
    unsafe {
        // Results travel on a private descriptor: stray prints cannot corrupt them.
        OUT_FD = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
        libc::close(null);
    }
    loop {
        let mut len = [0u8; 4];
        if !read_full(0, len.as_mut_ptr(), 4) {
            unsafe { libc::_exit(0) }
        }
        let n = u32::from_le_bytes(len) as usize;
        if n > BUF {
            unsafe { libc::_exit(91) }
        }
        let p = &raw mut REQ as *mut u8;
        if !read_full(0, p, n) {
            unsafe { libc::_exit(0) }
        }
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe {
                let t = libc::itimerval {
                    it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
                    it_value: libc::timeval { tv_sec: 90, tv_usec: 0 },
                };
                libc::setitimer(libc::ITIMER_REAL, &t, std::ptr::null_mut());
            }
            let s = unsafe { std::slice::from_raw_parts(p, n) };
            let req: Request = serde_json::from_slice(s).expect("request");
            crate::run::child(req)
        }
        if pid < 0 {
            raw_reply(br#"{"verdict":"internal","class":"fork failed"}"#);
            continue;
        }
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
            continue; // the child has replied
        }
        if libc::WIFSIGNALED(st) {
            match libc::WTERMSIG(st) {
                libc::SIGALRM => raw_reply(br#"{"verdict":"violation","class":"hang: the run made no progress in real time"}"#),
                libc::SIGSEGV => raw_reply(br#"{"verdict":"violation","class":"crash: SIGSEGV (memory error or stack overflow)"}"#),
                libc::SIGABRT => raw_reply(br#"{"verdict":"violation","class":"crash: abort"}"#),
                libc::SIGKILL => raw_reply(br#"{"verdict":"internal","class":"child killed"}"#),
                _ => raw_reply(br#"{"verdict":"violation","class":"crash: killed by a signal"}"#),
            }
        } else {
            raw_reply(br#"{"verdict":"internal","class":"child exited abnormally"}"#)
        }
    }
}

pub struct Zygote {
    child: Child,
}
impl Zygote {
    pub fn start() -> Zygote {
        let exe = std::env::current_exe().unwrap();
        let child = Command::new(exe)
            .arg("zygote")
            // Room for the arguments of simulated programs.
            .args(["-"; 20])
            .env_clear()
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(if std::env::var("DST_STDERR").is_ok() { Stdio::inherit() } else { Stdio::null() })
            .spawn()
            .expect("start zygote");
        Zygote { child }
    }
    pub fn run(&mut self, req: &Request) -> Response {
        let v = serde_json::to_vec(req).unwrap();
        let w = self.child.stdin.as_mut().unwrap();
        let ok = w
            .write_all(&(v.len() as u32).to_le_bytes())
            .and_then(|_| w.write_all(&v))
            .and_then(|_| w.flush());
        if ok.is_err() {
            return Response::internal("zygote gone");
        }
        let r = self.child.stdout.as_mut().unwrap();
        let mut l = [0u8; 4];
        if r.read_exact(&mut l).is_err() {
            return Response::internal("zygote gone");
        }
        let mut b = vec![0u8; u32::from_le_bytes(l) as usize];
        if r.read_exact(&mut b).is_err() {
            return Response::internal("zygote gone");
        }
        serde_json::from_slice(&b).unwrap_or_else(|e| Response::internal(&format!("bad reply: {e}")))
    }
}
impl Drop for Zygote {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// Re-exec without address-space randomisation, so that a run is a function of its request only.
pub fn disable_aslr() {
    unsafe {
        let p = libc::personality(0xffff_ffff);
        if p >= 0 && p & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var("DST_ASLR_TRIED").is_err() {
            if libc::personality((p | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong) >= 0 {
                use std::os::unix::process::CommandExt;
                let e = Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).env("DST_ASLR_TRIED", "1").exec();
                eprintln!("re-exec failed: {e}");
            }
        }
    }
}
