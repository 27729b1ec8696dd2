//! Runs the example programs with generated input.

use std::{
    fs::File,
    io::Read,
    path::PathBuf,
    process::{exit, Command},
    sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed},
    time::{Duration, Instant},
};

use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// The lines given to a program, and what the random source of the process is.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Session {
    pub entropy: u64,
    pub lines: Vec<String>,
    /// Lines that end with a carriage return and a newline.
    pub crlf: Vec<bool>,
    /// Whether the last line ends with a newline.
    pub newline: bool,
}

impl Session {
    pub fn new(entropy: u64, lines: Vec<String>) -> Self {
        Self { entropy, crlf: vec![false; lines.len()], lines, newline: true }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut b = vec![];
        for (i, l) in self.lines.iter().enumerate() {
            b.extend(l.as_bytes());
            if i + 1 < self.lines.len() || self.newline {
                if self.crlf.get(i).copied().unwrap_or(false) {
                    b.push(b'\r');
                }
                b.push(b'\n');
            }
        }
        b
    }
    /// The lines as a program reads them: an unfinished empty last line is none.
    pub fn read(&self) -> &[String] {
        match self.lines.split_last() {
            Some((last, rest)) if last.is_empty() && !self.newline => rest,
            _ => &self.lines,
        }
    }
}

pub struct Ran {
    pub stdout: String,
    pub stderr: String,
    pub success: bool,
    pub status: String,
}

fn machinery(m: String) -> ! {
    eprintln!("machinery: {m}");
    exit(2)
}

fn env_path(k: &str) -> PathBuf {
    match std::env::var_os(k) {
        Some(v) => v.into(),
        None => machinery(format!("{k} is not set")),
    }
}

/// More than any session lets a program print.
const MOST_OUTPUT: u64 = 200 << 20;

/// Whether a program was found that does not end.
static HUNG: AtomicBool = AtomicBool::new(false);

/// Runs a program to its end. One that does not end, though its input does, is ended and has failed.
/// What it reads and writes are files, so that no further threads are needed here.
pub fn run(program: &str, s: &Session) -> Ran {
    static NEXT: AtomicU64 = AtomicU64::new(0);
    thread_local!(static MINE: u64 = NEXT.fetch_add(1, Relaxed));
    let path = env_path("PC_PROGRAMS").join(program);
    let scratch = env_path("PC_SCRATCH");
    let named = |what: &str| scratch.join(format!("{}-{}-{what}", std::process::id(), MINE.with(|m| *m)));
    let fail = |what: &str, e: std::io::Error| -> ! { machinery(format!("{what} of {program} in {scratch:?}: {e}")) };
    let (fi, fo, fe) = (named("in"), named("out"), named("err"));
    std::fs::create_dir_all(&scratch).unwrap_or_else(|e| fail("folder", e));
    std::fs::write(&fi, s.bytes()).unwrap_or_else(|e| fail("input", e));
    let stdin = File::open(&fi).unwrap_or_else(|e| fail("input", e));
    let stdout = File::create(&fo).unwrap_or_else(|e| fail("output", e));
    let stderr = File::create(&fe).unwrap_or_else(|e| fail("output", e));
    let mut child = Command::new(&path)
        .env_clear()
        .env("NO_COLOR", "1")
        .env("TERM", "xterm")
        .env("PC_ENTROPY", s.entropy.to_string())
        .env("LD_PRELOAD", env_path("PC_ENTROPY_SO"))
        .stdin(stdin)
        .stdout(stdout)
        .stderr(stderr)
        .spawn()
        .unwrap_or_else(|e| machinery(format!("cannot run {path:?}: {e}")));
    let t0 = Instant::now();
    let mut pause = 200;
    let (mut end, mut status) = (None, "it does not end after the input has ended");
    loop {
        match child.try_wait() {
            Ok(Some(st)) => end = Some(st),
            Ok(None) => {
                let late = t0.elapsed() > Duration::from_secs(if HUNG.load(Relaxed) { 20 } else { 100 });
                let much = [&fo, &fe].iter().any(|f| std::fs::metadata(f).is_ok_and(|m| m.len() > MOST_OUTPUT));
                if !late && !much {
                    std::thread::sleep(Duration::from_micros(pause));
                    pause = (pause * 5 / 4).min(20_000);
                    continue;
                }
                if much {
                    status = "it does not stop printing";
                }
                HUNG.store(true, Relaxed);
                let _ = child.kill();
                let _ = child.wait();
            }
            Err(e) => machinery(format!("waiting for {program}: {e}")),
        }
        break;
    }
    let read = |f: &PathBuf| {
        let mut b = vec![];
        let _ = File::open(f).unwrap_or_else(|e| fail("output", e)).take(MOST_OUTPUT).read_to_end(&mut b).unwrap_or_else(|e| fail("output", e));
        b
    };
    let (stdout, stderr) = (read(&fo), read(&fe));
    for f in [fi, fo, fe] {
        let _ = std::fs::remove_file(f);
    }
    Ran {
        stdout: String::from_utf8_lossy(&stdout).into_owned(),
        stderr: String::from_utf8_lossy(&stderr).into_owned(),
        success: end.is_some_and(|e| e.success()),
        status: end.map_or(status.into(), |e| e.to_string()),
    }
}

impl Ran {
    pub fn ended_well(&self) -> Result<(), String> {
        if self.success {
            return Ok(());
        }
        let tail: String = self.stderr.chars().take(300).collect();
        Err(format!("the program failed ({}): {tail}", self.status))
    }
}

/// Lines as a terminal could give them: no newline, no backspace (which the line editor interprets), no
/// carriage return at the end.
pub fn clean(s: String) -> String {
    let s: String = s.chars().filter(|c| !['\n', '\u{8}'].contains(c)).collect();
    s.trim_end_matches('\r').to_string()
}

pub fn sessions(line: impl Strategy<Value = String>, max: usize) -> impl Strategy<Value = Session> {
    (proptest::collection::vec((line.prop_map(clean), prop::bool::weighted(0.1)), 0..max), any::<u64>(), prop::bool::weighted(0.8)).prop_map(
        |(v, entropy, newline)| {
            let (lines, crlf) = v.into_iter().unzip();
            Session { entropy, lines, crlf, newline }
        },
    )
}

/// A minute of shrinking is enough: failures that consist in not ending take long.
pub fn for_a_minute<'a, T>(fails: &'a dyn Fn(&T) -> bool) -> impl Fn(&T) -> bool + 'a {
    let t0 = Instant::now();
    move |t| t0.elapsed() < Duration::from_secs(60) && fails(t)
}
