//! Running the built command.

use crate::fw::{clip, verif_dir, Outcome};
use std::io::{Read, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub timed_out: bool,
}

impl Out {
    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.stdout).into_owned()
    }
    pub fn err_text(&self) -> String {
        String::from_utf8_lossy(&self.stderr).into_owned()
    }
}

pub fn binary() -> PathBuf {
    match std::env::var("CLI_BIN") {
        Ok(p) => PathBuf::from(p),
        Err(_) => verif_dir().join("target/cli/debug/basjoofan"),
    }
}

pub fn command(args: &[&str], env: &[(&str, &str)], dir: Option<&Path>) -> Command {
    let mut c = Command::new(binary());
    c.args(args).env_remove("POD").env_remove("RUST_BACKTRACE");
    for (k, v) in env {
        c.env(k, v);
    }
    if let Some(d) = dir {
        c.current_dir(d);
    }
    c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    unsafe {
        c.pre_exec(|| {
            // a group of its own, gone with the check, bounded memory and no core files
            libc::setpgid(0, 0);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let m = libc::rlimit {
                rlim_cur: 6 << 30,
                rlim_max: 6 << 30,
            };
            libc::setrlimit(libc::RLIMIT_AS, &m);
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            Ok(())
        });
    }
    c
}

/// The same with at most so many open files.
pub fn few_files(mut c: Command, files: u64) -> Command {
    unsafe {
        c.pre_exec(move || {
            let m = libc::rlimit { rlim_cur: files, rlim_max: files };
            libc::setrlimit(libc::RLIMIT_NOFILE, &m);
            Ok(())
        });
    }
    c
}

pub fn kill(child: &Child, signal: i32) {
    unsafe {
        libc::kill(child.id() as i32, signal);
    }
}

pub struct Running {
    pub child: Child,
    out: std::thread::JoinHandle<Vec<u8>>,
    err: std::thread::JoinHandle<Vec<u8>>,
}

pub fn start(args: &[&str], env: &[(&str, &str)], dir: Option<&Path>, input: Option<Vec<u8>>) -> Running {
    start_command(command(args, env, dir), input)
}

pub fn start_command(mut command: Command, input: Option<Vec<u8>>) -> Running {
    let mut child = command.spawn().expect("spawn the command");
    let mut stdin = child.stdin.take().unwrap();
    if let Some(input) = input {
        std::thread::spawn(move || {
            let _ = stdin.write_all(&input);
        });
    }
    let mut so = child.stdout.take().unwrap();
    let mut se = child.stderr.take().unwrap();
    let out = std::thread::spawn(move || {
        let mut v = Vec::new();
        let _ = so.read_to_end(&mut v);
        v
    });
    let err = std::thread::spawn(move || {
        let mut v = Vec::new();
        let _ = se.read_to_end(&mut v);
        v
    });
    Running { child, out, err }
}

impl Running {
    pub fn wait(mut self, limit: Duration) -> Out {
        let started = Instant::now();
        let mut timed_out = false;
        let mut nap = Duration::from_micros(300);
        let status = loop {
            if let Some(s) = self.child.try_wait().expect("wait") {
                break s;
            }
            if started.elapsed() > limit {
                timed_out = true;
                let _ = self.child.kill();
                break self.child.wait().expect("wait");
            }
            std::thread::sleep(nap);
            nap = (nap * 2).min(Duration::from_millis(10));
        };
        Out {
            code: status.code(),
            signal: status.signal(),
            stdout: self.out.join().unwrap_or_default(),
            stderr: self.err.join().unwrap_or_default(),
            timed_out,
        }
    }
}

/// Runs to the end; a run that does not end in 60 s is given a second one of 150 s.
pub fn run_in(args: &[&str], stdin: &[u8], env: &[(&str, &str)], dir: Option<&Path>) -> Out {
    let out = start(args, env, dir, Some(stdin.to_vec())).wait(Duration::from_secs(60));
    if !out.timed_out {
        return out;
    }
    start(args, env, dir, Some(stdin.to_vec())).wait(Duration::from_secs(150))
}

pub fn run(args: &[&str], stdin: &[u8], env: &[(&str, &str)]) -> Out {
    run_in(args, stdin, env, None)
}

/// It ended by itself, without a panic.
pub fn sane(out: &Out) -> Outcome {
    let err = out.err_text();
    if out.timed_out {
        return Err(format!("the command does not end; stdout {:?}, stderr {:?}", clip(&out.text(), 500), clip(&err, 500)));
    }
    if let Some(s) = out.signal {
        return Err(format!("the command died of signal {}; stderr {:?}", s, clip(&err, 500)));
    }
    if out.code == Some(101) || err.contains("panicked at") {
        return Err(format!("the command panicked: {:?}", clip(&err, 500)));
    }
    Ok(())
}
