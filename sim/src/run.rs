//! Running plans in child processes: one fork per simulated run, a watchdog, and what came of it.

use crate::env::*;
use crate::exec;
use crate::plan::*;
use crate::sched;

pub struct Runner {
    err_fd: i32,
    err_path: String,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Outcome {
    /// None: nothing wrong
    pub class: Option<String>,
    pub msg: String,
    pub harness: bool,
    pub unsure: bool,
}

impl Runner {
    /// Maps the shared memory and gets the process into the state every child starts from.
    pub fn new(tag: &str) -> Runner {
        unsafe {
            let sz = std::mem::size_of::<Shm>();
            let p = libc::mmap(std::ptr::null_mut(), sz, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
            assert!(p != libc::MAP_FAILED);
            SHM = p as *mut Shm;
            let c = libc::mmap(std::ptr::null_mut(), COVSZ, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
            assert!(c != libc::MAP_FAILED);
            COV = c as *mut u8;
            sim_set_shared(COV, &mut (*SHM).total);
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            let dir = std::env::temp_dir();
            let err_path = format!("{}/fsim-{}-{}.err", dir.display(), std::process::id(), tag);
            let cs = std::ffi::CString::new(err_path.clone()).unwrap();
            let err_fd = libc::open(cs.as_ptr(), libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC | libc::O_CLOEXEC, 0o600);
            assert!(err_fd >= 0);
            sched::set_me(0);
            install_hooks();
            // once through the panic machinery, so that what it keeps for good is there already
            let _ = lib(|| -> u32 { panic!("warm-up") });
            let _ = lib(|| -> u32 { std::panic::panic_any(SimPanic) });
            (*SHM).panic_msg[0] = 0;
            Runner { err_fd, err_path }
        }
    }

    /// Runs one plan in a child; the outcome's details are left in the shared memory.
    pub fn run(&self, p: &Plan) -> Outcome {
        unsafe {
            std::ptr::write_bytes(SHM as *mut u8, 0, std::mem::size_of::<Shm>());
            libc::ftruncate(self.err_fd, 0);
            libc::lseek(self.err_fd, 0, libc::SEEK_SET);
            let pid = libc::fork();
            if pid < 0 {
                return Outcome {
                    class: Some("harness".into()),
                    msg: "fork failed".into(),
                    harness: true,
                    unsure: true,
                };
            }
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                if std::env::var_os("FSIM_VERBOSE").is_none() {
                    libc::dup2(self.err_fd, 2);
                }
                exec::run_plan(p);
                shm().status = 1;
                libc::_exit(0);
            }
            let mut st = 0;
            let fd = libc::syscall(libc::SYS_pidfd_open, pid, 0) as i32;
            let mut last = 0u64;
            let mut still = 0u32;
            let mut asleep = 0u32;
            let mut hang = None;
            loop {
                if fd >= 0 {
                    let mut pf = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
                    let r = libc::poll(&mut pf, 1, 250);
                    if r > 0 {
                        libc::waitpid(pid, &mut st, 0);
                        break;
                    }
                } else {
                    let mut done = false;
                    for i in 0..1250 {
                        if libc::waitpid(pid, &mut st, libc::WNOHANG) == pid {
                            done = true;
                            break;
                        }
                        libc::usleep(if i < 50 { 40 } else { 200 });
                    }
                    if done {
                        break;
                    }
                }
                let t = std::ptr::read_volatile(&(*SHM).total);
                if t != last {
                    last = t;
                    still = 0;
                    asleep = 0;
                    continue;
                }
                still += 1;
                asleep = if all_asleep(pid) { asleep + 1 } else { 0 };
                if asleep >= 16 && still >= 16 {
                    hang = Some("blocked");
                } else if still >= 240 {
                    hang = Some("stuck");
                }
                if hang.is_some() {
                    libc::kill(pid, libc::SIGKILL);
                    libc::waitpid(pid, &mut st, 0);
                    break;
                }
            }
            if fd >= 0 {
                libc::close(fd);
            }
            let at = || {
                let m = shm();
                format!("phase {} client {} operation {}", m.phase, m.cur_client, m.cur_op)
            };
            if let Some(h) = hang {
                return Outcome {
                    class: Some(format!("hang/{h}")),
                    msg: format!(
                        "no progress any more: {}; {}",
                        if h == "blocked" { "every thread sleeps inside the library" } else { "the library spins without reaching a scheduling point" },
                        at()
                    ),
                    harness: false,
                    unsure: false,
                };
            }
            let m = shm();
            if libc::WIFEXITED(st) {
                match libc::WEXITSTATUS(st) {
                    0 if m.status == 1 => {
                        return Outcome {
                            class: None,
                            msg: String::new(),
                            harness: false,
                            unsure: false,
                        }
                    }
                    10 => {
                        return Outcome {
                            class: Some(gets(&m.class)),
                            msg: gets(&m.msg),
                            harness: false,
                            unsure: false,
                        }
                    }
                    11 => {
                        return Outcome {
                            class: Some("harness".into()),
                            msg: gets(&m.msg),
                            harness: true,
                            unsure: false,
                        }
                    }
                    _ => {}
                }
            }
            let err = self.err_text();
            let pm = gets(&m.panic_msg);
            let (class, how) = if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 77 {
                let kind = err
                    .split("ERROR: AddressSanitizer: ")
                    .nth(1)
                    .and_then(|s| s.split_whitespace().next())
                    .unwrap_or("error")
                    .trim_matches(|c: char| !c.is_alphanumeric() && c != '-')
                    .to_string();
                (format!("crash/asan-{kind}"), format!("AddressSanitizer: {kind}"))
            } else if libc::WIFSIGNALED(st) {
                let s = libc::WTERMSIG(st);
                if s == libc::SIGKILL {
                    // nobody here sends that: out of memory, or the sandbox is going down
                    return Outcome {
                        class: Some("harness".into()),
                        msg: "the child was killed".into(),
                        harness: true,
                        unsure: true,
                    };
                }
                (format!("crash/signal-{s}"), format!("killed by signal {s}"))
            } else {
                (format!("crash/exit-{}", libc::WEXITSTATUS(st)), format!("ended with status {st:#x}"))
            };
            let lines: Vec<&str> = err.lines().filter(|l| !l.trim().is_empty()).take(8).collect();
            Outcome {
                class: Some(class),
                msg: format!("{how}; {}; last library panic: {pm}; {}", at(), lines.join(" / ")),
                harness: false,
                unsure: false,
            }
        }
    }

    fn err_text(&self) -> String {
        std::fs::read(&self.err_path)
            .map(|b| String::from_utf8_lossy(&b[..b.len().min(4000)]).into_owned())
            .unwrap_or_default()
    }
}
impl Drop for Runner {
    fn drop(&mut self) {
        unsafe { libc::close(self.err_fd) };
        let _ = std::fs::remove_file(&self.err_path);
    }
}
static mut COV: *mut u8 = std::ptr::null_mut();
pub fn cov_edges() -> Vec<u32> {
    unsafe { (0..COVSZ).filter(|i| *COV.add(*i) != 0).map(|i| i as u32).collect() }
}

fn all_asleep(pid: i32) -> bool {
    let Ok(d) = std::fs::read_dir(format!("/proc/{pid}/task")) else {
        return false;
    };
    for e in d.flatten() {
        let Ok(s) = std::fs::read_to_string(e.path().join("stat")) else {
            return false;
        };
        let Some(i) = s.rfind(')') else { return false };
        match s[i + 1..].trim_start().chars().next() {
            Some('S') => {}
            _ => return false,
        }
    }
    true
}
