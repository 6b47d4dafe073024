//! Runs a plan in a process of its own.
use crate::exec::{self, History};
use crate::plan::Plan;
use crate::seams;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::Ordering::*;

#[derive(Clone, Debug)]
pub enum Outcome {
    Hist(Box<History>),
    /// the run was ended: "hang", "memory", "steps"
    Abort(String),
    Signal(i32),
    /// the harness itself failed
    Broken(String),
}

impl Outcome {
    pub fn hist(&self) -> Option<&History> {
        match self {
            Outcome::Hist(h) => Some(h),
            _ => None,
        }
    }
    pub fn trace(&self) -> String {
        match self {
            Outcome::Hist(h) => format!("{:016x}", h.trace),
            o => format!("{o:?}"),
        }
    }
}

pub fn run(plan: &Plan, keep_log: bool) -> Outcome {
    unsafe {
        let mut fds = [0i32; 2];
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            return Outcome::Broken("pipe".into());
        }
        let pid = libc::fork();
        if pid < 0 {
            libc::close(fds[0]);
            libc::close(fds[1]);
            return Outcome::Broken("fork".into());
        }
        if pid == 0 {
            libc::close(fds[0]);
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            if std::env::var_os("POSIM_STDERR").is_none() {
                libc::dup2(null, 2);
            }
            libc::alarm(600);
            let rl = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &rl);
            seams::ABORT_FD.store(fds[1] as usize, SeqCst);
            let plan: &'static Plan = Box::leak(Box::new(plan.clone()));
            let msg = match exec::run(plan, keep_log) {
                Ok(h) => serde_json::to_vec(&h).unwrap_or_else(|e| format!("{{\"broken\":\"{e}\"}}").into_bytes()),
                Err(e) => format!("{{\"abort\":\"{e}\"}}").into_bytes(),
            };
            let mut f = std::fs::File::from_raw_fd(fds[1]);
            let _ = f.write_all(&msg);
            let _ = f.flush();
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut f = std::fs::File::from_raw_fd(fds[0]);
        let mut buf = Vec::new();
        let rd = f.read_to_end(&mut buf);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
        if rd.is_err() {
            return Outcome::Broken("read from child".into());
        }
        if libc::WIFSIGNALED(st) {
            return match libc::WTERMSIG(st) {
                libc::SIGALRM => Outcome::Broken("child timed out".into()),
                libc::SIGKILL => Outcome::Broken("child was killed".into()),
                s => Outcome::Signal(s),
            };
        }
        if let Ok(h) = serde_json::from_slice::<History>(&buf) {
            return Outcome::Hist(Box::new(h));
        }
        match serde_json::from_slice::<serde_json::Value>(&buf) {
            Ok(v) if v.get("abort").is_some() => Outcome::Abort(v["abort"].as_str().unwrap_or("?").to_string()),
            _ => Outcome::Broken(format!("exit {} with {} bytes: {}", st, buf.len(), String::from_utf8_lossy(&buf[..buf.len().min(200)]))),
        }
    }
}
