//! C23: a call uses nothing but its arguments and does nothing but return. Every case runs in a process of its
//! own, in surroundings made up for it: an environment that answers every question, a clock that is wrong, other
//! arguments, memory that is never clean, places of every kind for the arguments. A filter of system calls
//! lets through what memory, threads and randomness need, and notes everything else.

use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::UnsafeCell,
    collections::{BTreeSet, HashSet},
    error::Error,
    ffi::{c_char, c_int, c_void, CStr, CString},
    fs::File,
    hint::black_box,
    io::Write,
    os::fd::FromRawFd,
    panic::{catch_unwind, AssertUnwindSafe},
    path::PathBuf,
    process::{exit, Command, Stdio},
    sync::Mutex,
    sync::atomic::{AtomicBool, AtomicI64, AtomicPtr, AtomicU64, AtomicU8, AtomicUsize, Ordering::SeqCst},
};

use poker::{box_cards, cards, deck, Card, Eval, EvalClass, EvalError, Evaluator, Rank, Suit};
use pokercheck::{
    driver::{replay, Ctx, Outcome},
    model::{self, mix},
};
use proptest::prelude::*;
use rand::{RngCore, SeedableRng};
use serde::{Deserialize, Serialize};
use serde_json::Value;

#[allow(dead_code)]
mod data;
use data::{card, X};

// ---------------------------------------------------------------- the surroundings

/// While calls of the crate are running.
static ARMED: AtomicBool = AtomicBool::new(false);
/// What every environment variable that is asked for contains, if it is not null.
static ANSWER: AtomicPtr<c_char> = AtomicPtr::new(std::ptr::null_mut());
/// How wrong the clock is in seconds, and by how much more it is wrong each time it is read, in milliseconds.
static CLOCK: AtomicI64 = AtomicI64::new(0);
static STEP: AtomicI64 = AtomicI64::new(0);
static FROZEN: AtomicBool = AtomicBool::new(false);
static READS: AtomicI64 = AtomicI64::new(0);
/// What new memory is filled with.
static FILL: AtomicU8 = AtomicU8::new(0);

struct Unclean;
unsafe impl GlobalAlloc for Unclean {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            p.write_bytes(FILL.load(SeqCst), l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        p.write_bytes(!FILL.load(SeqCst), l.size());
        System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOCATOR: Unclean = Unclean;

unsafe fn next<T: Copy>(cache: &AtomicUsize, name: &CStr) -> T {
    let mut p = cache.load(SeqCst);
    if p == 0 {
        p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) as usize;
        assert!(p != 0);
        cache.store(p, SeqCst);
    }
    std::mem::transmute_copy(&p)
}

/// Answers every question about the environment, except those that the standard library asks itself.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    let answer = ANSWER.load(SeqCst);
    if ARMED.load(SeqCst) && !answer.is_null() && !CStr::from_ptr(name).to_bytes().starts_with(b"RUST_") {
        return answer;
    }
    next::<unsafe extern "C" fn(*const c_char) -> *mut c_char>(&NEXT, c"getenv")(name)
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: libc::clockid_t, t: *mut libc::timespec) -> c_int {
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    let r = next::<unsafe extern "C" fn(libc::clockid_t, *mut libc::timespec) -> c_int>(&NEXT, c"clock_gettime")(clock, t);
    if ARMED.load(SeqCst) && r == 0 {
        if FROZEN.load(SeqCst) {
            *t = libc::timespec { tv_sec: 1_000_000_000, tv_nsec: 5 };
        }
        let late = READS.fetch_add(1, SeqCst) * STEP.load(SeqCst);
        (*t).tv_sec += late / 1000;
        if clock == libc::CLOCK_REALTIME {
            (*t).tv_sec = ((*t).tv_sec + CLOCK.load(SeqCst)).max(0);
        }
    }
    r
}

// ---------------------------------------------------------------- what is noted

const RESULTS: c_int = 100;
const MOST: usize = 64;
struct Notes(UnsafeCell<[[u8; 96]; MOST]>);
unsafe impl Sync for Notes {}
static NOTES: Notes = Notes(UnsafeCell::new([[0; 96]; MOST]));
static NOTED: AtomicUsize = AtomicUsize::new(0);
static DOING: AtomicU64 = AtomicU64::new(0);

/// System calls that memory, threads, randomness and the questions who runs and how long need.
const ALLOWED: &[i64] = &[
    libc::SYS_brk, libc::SYS_mmap, libc::SYS_munmap, libc::SYS_mremap, libc::SYS_mprotect, libc::SYS_madvise, libc::SYS_membarrier,
    libc::SYS_clone, libc::SYS_clone3, libc::SYS_set_robust_list, libc::SYS_get_robust_list, libc::SYS_rseq, libc::SYS_set_tid_address,
    libc::SYS_prctl, libc::SYS_futex, libc::SYS_sigaltstack, libc::SYS_rt_sigprocmask, libc::SYS_rt_sigreturn, libc::SYS_exit,
    libc::SYS_exit_group, libc::SYS_gettid, libc::SYS_getpid, libc::SYS_tgkill, libc::SYS_sched_yield, libc::SYS_sched_getaffinity,
    libc::SYS_sched_getparam, libc::SYS_sched_getscheduler, libc::SYS_getrandom, libc::SYS_clock_gettime, libc::SYS_gettimeofday, libc::SYS_time,
    libc::SYS_clock_getres, libc::SYS_getcpu, libc::SYS_prlimit64, libc::SYS_getrlimit, libc::SYS_restart_syscall, libc::SYS_sysinfo,
];
/// Those whose first or second argument is a path.
const FIRST: &[i64] = &[
    libc::SYS_open, libc::SYS_creat, libc::SYS_stat, libc::SYS_lstat, libc::SYS_access, libc::SYS_readlink, libc::SYS_unlink, libc::SYS_mkdir,
    libc::SYS_rmdir, libc::SYS_rename, libc::SYS_chdir, libc::SYS_execve, libc::SYS_truncate, libc::SYS_chmod, libc::SYS_statfs,
];
const SECOND: &[i64] = &[
    libc::SYS_openat, libc::SYS_openat2, libc::SYS_newfstatat, libc::SYS_statx, libc::SYS_faccessat, libc::SYS_faccessat2, libc::SYS_readlinkat,
    libc::SYS_unlinkat, libc::SYS_mkdirat, libc::SYS_renameat, libc::SYS_renameat2,
];
const NAMES: &[(i64, &str)] = &[
    (libc::SYS_write, "writes to file"), (libc::SYS_writev, "writes to file"), (libc::SYS_pwrite64, "writes to file"), (libc::SYS_sendto, "sends to"),
    (libc::SYS_read, "reads from file"), (libc::SYS_readv, "reads from file"), (libc::SYS_nanosleep, "waits"), (libc::SYS_clock_nanosleep, "waits"),
    (libc::SYS_poll, "waits"), (libc::SYS_ppoll, "waits"), (libc::SYS_select, "waits"), (libc::SYS_pselect6, "waits"), (libc::SYS_ioctl, "asks about file"),
    (libc::SYS_fstat, "asks about file"), (libc::SYS_socket, "opens a socket of kind"), (libc::SYS_connect, "connects"),
    (libc::SYS_rt_sigaction, "changes what becomes of signal"), (libc::SYS_kill, "sends a signal to"), (libc::SYS_fork, "starts a process"),
    (libc::SYS_vfork, "starts a process"), (libc::SYS_chdir, "changes directory"), (libc::SYS_getcwd, "asks for the directory"),
    (libc::SYS_umask, "changes the umask"), (libc::SYS_uname, "asks for the name of the machine"), (libc::SYS_getuid, "asks who the user is"),
    (libc::SYS_geteuid, "asks who the user is"), (libc::SYS_open, "opens"), (libc::SYS_openat, "opens"), (libc::SYS_statx, "asks about"),
    (libc::SYS_unlink, "removes"), (libc::SYS_mkdir, "makes directory"), (libc::SYS_execve, "runs"), (libc::SYS_readlink, "reads link"),
];

fn put(note: &mut [u8; 96], at: usize, s: &[u8]) -> usize {
    let n = s.len().min(note.len() - 1 - at);
    note[at..at + n].copy_from_slice(&s[..n]);
    at + n
}
fn digits(n: u64, b: &mut [u8; 20]) -> &[u8] {
    let (mut i, mut n) = (20, n);
    loop {
        i -= 1;
        b[i] = b'0' + (n % 10) as u8;
        n /= 10;
        if n == 0 {
            return &b[i..];
        }
    }
}

/// Takes the place of a system call that was not let through: it fails.
unsafe extern "C" fn refused(_: c_int, info: *mut libc::siginfo_t, context: *mut c_void) {
    let regs = &mut (*(context as *mut libc::ucontext_t)).uc_mcontext.gregs;
    let nr = *((info as *const u8).add(24) as *const c_int) as i64;
    let args = [regs[libc::REG_RDI as usize] as u64, regs[libc::REG_RSI as usize] as u64];
    regs[libc::REG_RAX as usize] = -(libc::EPERM as i64);
    let path = if FIRST.contains(&nr) {
        Some(args[0])
    } else if SECOND.contains(&nr) {
        Some(args[1])
    } else {
        None
    };
    let path = path.filter(|p| *p != 0).map(|p| CStr::from_ptr(p as *const c_char).to_bytes());
    // What the standard library and the system's libraries look at by themselves.
    if path.map_or(false, |p| [&b"/proc/"[..], b"/sys/", b"/dev/urandom", b"/dev/random"].iter().any(|x| p.starts_with(x))) {
        return;
    }
    // The C library's own signals, which it sets up with the first thread.
    if nr == libc::SYS_rt_sigaction && (args[0] == 32 || args[0] == 33) {
        return;
    }
    let i = NOTED.fetch_add(1, SeqCst);
    if i >= MOST {
        return;
    }
    let mut d = [0; 20];
    let note = &mut (*NOTES.0.get())[i];
    let mut at = match NAMES.iter().find(|x| x.0 == nr) {
        Some(x) => put(note, 0, x.1.as_bytes()),
        None => {
            let at = put(note, 0, b"system call ");
            put(note, at, digits(nr as u64, &mut d))
        }
    };
    at = put(note, at, b" ");
    at = match path {
        Some(p) => put(note, at, p),
        None => put(note, at, digits(args[0], &mut d)),
    };
    at = put(note, at, b" in call ");
    put(note, at, digits(DOING.load(SeqCst), &mut d));
}

fn raise_fence() -> bool {
    let op = |code: u16, jt: u8, jf: u8, k: u32| libc::sock_filter { code, jt, jf, k };
    const LOAD: u16 = (libc::BPF_LD | libc::BPF_W | libc::BPF_ABS) as u16;
    const EQUAL: u16 = (libc::BPF_JMP | libc::BPF_JEQ | libc::BPF_K) as u16;
    const RETURN: u16 = (libc::BPF_RET | libc::BPF_K) as u16;
    let allow = || op(RETURN, 0, 0, libc::SECCOMP_RET_ALLOW);
    let mut f = vec![op(LOAD, 0, 0, 0), op(EQUAL, 0, 3, libc::SYS_write as u32), op(LOAD, 0, 0, 16), op(EQUAL, 0, 1, RESULTS as u32), allow(), op(LOAD, 0, 0, 0)];
    for &nr in ALLOWED {
        f.push(op(EQUAL, 0, 1, nr as u32));
        f.push(allow());
    }
    f.push(op(RETURN, 0, 0, libc::SECCOMP_RET_TRAP));
    unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = refused as *const () as usize;
        a.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER | libc::SA_ONSTACK;
        let prog = libc::sock_fprog { len: f.len() as u16, filter: f.as_mut_ptr() };
        libc::sigaction(libc::SIGSYS, &a, std::ptr::null_mut()) == 0
            && libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0
            && libc::prctl(libc::PR_SET_SECCOMP, libc::SECCOMP_MODE_FILTER as usize, &prog as *const _ as usize, 0, 0) == 0
    }
}

// ---------------------------------------------------------------- the calls

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Act {
    Five,
    SixSeven,
    More,
    Rejected,
    Static,
    StaticRejected,
    Parse,
    ParseMany,
    Macros,
    Generate,
    Shuffle,
    NewEvaluator,
    CopyEvaluator,
    Texts,
    Order,
    Classes,
    Nested,
    Panicking,
    // Only to see that the machinery notices them.
    TestWrites,
    TestReads,
    TestWaits,
    TestAsks,
    TestTime,
    TestHook,
    TestVariables,
    TestAddress,
    TestUnclean,
}
use Act::*;
const ACTS: [(Act, &str); 18] = [
    (Five, "five cards"),
    (SixSeven, "six or seven cards"),
    (More, "eight or more cards"),
    (Rejected, "rejected cards"),
    (Static, "the static evaluator"),
    (StaticRejected, "cards rejected by the static evaluator"),
    (Parse, "parsing a card"),
    (ParseMany, "parsing many cards"),
    (Macros, "the macros"),
    (Generate, "a generated deck"),
    (Shuffle, "a shuffled deck"),
    (NewEvaluator, "a new evaluator"),
    (CopyEvaluator, "a copied evaluator"),
    (Texts, "texts of values"),
    (Order, "comparing and sorting"),
    (Classes, "classes"),
    (Nested, "a call inside a call"),
    (Panicking, "the caller's code panics"),
];
const TESTS: [(Act, &str); 9] = [
    (TestWrites, "writes"),
    (TestReads, "opens /nonexistent"),
    (TestWaits, "waits"),
    (TestAsks, "ordinarily"),
    (TestTime, "ordinarily"),
    (TestHook, "panic hook"),
    (TestVariables, "environment"),
    (TestAddress, "ordinarily"),
    (TestUnclean, "ordinarily"),
];

/// A value somewhere in the caller's memory.
struct Place(X);
impl Place {
    /// A vector with room to spare, or none, and the cards at some distance from its start.
    fn of<T: Clone>(&mut self, v: &[T], filler: &[T]) -> (Vec<T>, usize) {
        let before = if filler.is_empty() { 0 } else { self.0.below(9) };
        let after = if filler.is_empty() { 0 } else { self.0.below(4) };
        let extra = self.0.below(3) * self.0.below(40);
        let mut w = Vec::with_capacity(before + v.len() + after + extra);
        w.extend((0..before).map(|_| filler[self.0.below(filler.len())].clone()));
        w.extend_from_slice(v);
        w.extend((0..after).map(|_| filler[self.0.below(filler.len())].clone()));
        (w, before)
    }
}
/// Gives `$s` to the expression as a slice of a larger buffer.
macro_rules! at {
    ($place:expr, $all:expr, $v:expr, |$s:ident| $e:expr) => {{
        let v = $v;
        let (w, k) = $place.of(&v, $all);
        let $s = &w[k..k + v.len()];
        $e
    }};
}
fn text_at<R>(place: &mut Place, t: &str, f: impl FnOnce(&str) -> R) -> R {
    let (before, after) = (place.0.below(9), place.0.below(4));
    let mut s = String::with_capacity(before + t.len() + after + place.0.below(50));
    s.extend((0..before).map(|_| 'A'));
    s.push_str(t);
    s.extend((0..after).map(|_| 'c'));
    f(&s[before..before + t.len()])
}

struct Broken;
impl AsRef<[Card]> for Broken {
    fn as_ref(&self) -> &[Card] { panic!("from the caller's container") }
}
struct BrokenOwner(Vec<String>);
impl AsRef<[Card]> for BrokenOwner {
    fn as_ref(&self) -> &[Card] { panic!("from the caller's container with {} texts", self.0.len()) }
}
struct BrokenSource(u64);
impl RngCore for BrokenSource {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 {
        self.0 = self.0.checked_sub(1).expect("from the caller's source");
        mix(self.0)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) { d.iter_mut().for_each(|b| *b = self.next_u64() as u8) }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
struct Nest<'a>(&'a Evaluator, Vec<Card>, Vec<Card>);
impl AsRef<[Card]> for Nest<'_> {
    fn as_ref(&self) -> &[Card] {
        let _ = black_box(self.0.evaluate(&self.2));
        &self.1
    }
}

fn tell(e: impl Error + Clone + PartialEq + 'static) -> String {
    let b: Box<dyn Error> = Box::new(e.clone());
    format!("{b}|{b:?}|{e:#?}|{}|{}", e.source().is_some(), e == e.clone())
}
fn eval(r: Result<Eval, EvalError>) -> String {
    match r {
        Ok(e) => format!("{e}|{e:?}|{:?}|{e:>45}", e.class()),
        Err(e) => tell(e),
    }
}
fn named(c: impl AsRef<[Card]>) -> String { c.as_ref().iter().map(|c| c.rank_suit_string()).collect::<Vec<_>>().join(" ") }
fn read<E: Error + Clone + PartialEq + 'static>(r: Result<Card, E>) -> String {
    match r {
        Ok(c) => format!("{c}|{c:?}|{}", c.unique_integer()),
        Err(e) => tell(e),
    }
}

/// Cards that are not a hand, some of them more than a deck has.
fn bad(x: &mut X) -> Vec<usize> {
    match x.below(8) {
        0 => (0..2 + x.below(300)).map(|i| if i < 2 { 51 } else { x.below(52) }).collect(),
        _ => x.bad_numbers(),
    }
}

/// Makes a call with the data and says what came of it.
fn act(a: Act, x: &mut X, place: &mut Place, ev: &Evaluator) -> String {
    let all: Vec<Card> = (0..52usize).map(|c| card!(poker, c)).collect();
    let all = &all[..];
    match a {
        Five => {
            let h = x.hand(5);
            let (one, two) = (eval(ev.evaluate([h[0], h[1], h[2], h[3], h[4]])), at!(place, all, h, |s| eval(ev.evaluate(s))));
            one + &two
        }
        SixSeven => {
            let n = 6 + x.below(2);
            at!(place, all, x.hand(n), |s| eval(ev.evaluate(s)))
        }
        More => {
            let n = match x.below(12) {
                0 => 12 + x.below(7),
                _ => 8 + x.below(4),
            };
            at!(place, all, x.hand(n), |s| eval(ev.evaluate(s)))
        }
        Rejected => {
            let h: Vec<Card> = bad(x).iter().map(|&c| all[c]).collect();
            at!(place, all, h, |s| eval(ev.evaluate(s)))
        }
        Static | StaticRejected => {
            use poker_static::evaluate::static_lookup;
            let all: Vec<_> = (0..52usize).map(|c| card!(poker_static, c)).collect();
            let n = 5 + x.below(3);
            let numbers = if a == Static { x.numbers(n) } else { bad(x) };
            let h: Vec<_> = numbers.iter().map(|&c| card!(poker_static, c)).collect();
            at!(place, &all, h, |s| match static_lookup::evaluate(s) {
                Ok(e) => format!("{e}|{e:?}|{:?}", e.class()),
                Err(e) => tell(e),
            })
        }
        Parse => {
            let mut t = x.text();
            if x.below(16) == 0 {
                t = t.repeat(x.below(3000) / t.len().max(1));
            }
            let mut s = text_at(place, &t, |t| read(t.parse::<Card>()));
            let mut cs = t.chars();
            if let (Some(a), Some(b)) = (cs.next(), cs.next()) {
                s += &read(Card::try_from_chars(a, b));
                s += &format!("{:?}{:?}", Rank::try_from(a), Suit::try_from(b));
            }
            s
        }
        ParseMany => {
            let good = x.below(2) == 0;
            let mut v = x.texts(good);
            if x.below(12) == 0 {
                v = v.iter().cycle().take(if v.is_empty() { 0 } else { x.below(400) }).cloned().collect();
            }
            let k = x.below(v.len() + 1);
            let (w, from) = place.of(&v, &["As".to_string(), "x".into()]);
            let mut s = format!("{:?}", Card::parse_to_iter(&w[from..from + v.len()]).try_collect::<Vec<_>>());
            s += &format!("{:?}", Card::parse_to_iter(v.clone()).try_collect::<BTreeSet<_>>());
            s += &Card::parse_to_iter(v.iter()).map(read).collect::<String>();
            let mut it = Card::parse_to_iter(v.clone());
            s += &format!("{:?}{:?}", it.by_ref().take(k).count(), it.next());
            s + &format!("{:?}{:?}", it.nth(1), Card::parse_to_iter(v).skip(k).step_by(2).find(|r| r.is_ok()))
        }
        Macros => {
            let (a, b) = (x.hand(3), x.hand(4));
            let mut s = at!(place, all, a, |a| eval(ev.evaluate(box_cards!(a, b))));
            let good = x.below(2) == 0;
            let line = x.texts(good).join([" ", "  ", "\t", "\n"][x.below(4)]);
            s += &text_at(place, &line, |line| format!("{:?}", cards!(line).try_collect::<Vec<_>>()));
            let (t, u) = (x.text(), x.text());
            s + &format!("{:?}", cards!(&t[..], &u[..]).map(read).collect::<Vec<_>>())
        }
        Generate => {
            let k = x.below(60);
            let mut it = deck::generate();
            format!("{}{:?}{:?}", named(deck::generate().take(k).collect::<Vec<_>>()), it.next(), it.nth(k / 2))
        }
        Shuffle => {
            // Only this one may use anything else: the system's randomness, so no deck comes twice.
            let mut d = deck::shuffled();
            let mut decks = DECKS.lock().unwrap();
            if decks.len() < 40 {
                decks.push(named(&d));
            }
            drop(decks);
            d.sort_by_key(|c| (c.rank() as u8, c.suit() as u8));
            let mut r = rand::rngs::StdRng::seed_from_u64(x.0);
            format!("{} {}", named(d), named(deck::shuffled_with(&mut r))) + &r.next_u64().to_string()
        }
        NewEvaluator => {
            let e = if x.below(2) == 0 { Evaluator::new() } else { Evaluator::default() };
            let s = eval(e.evaluate(x.hand(5)));
            let b = Box::new(e);
            s + &eval(b.evaluate(x.not_a_hand())) + &(*b == *ev).to_string()
        }
        CopyEvaluator => {
            let mut e = ev.clone();
            let s = eval(e.evaluate(x.hand(5)));
            let f = e.clone();
            e.clone_from(&f);
            s + &format!("{}", e == f)
        }
        Texts => {
            let h = x.hand(5);
            let mut s = String::new();
            for c in &h {
                s += &format!("{c}{c:?}{c:#?}{}{}{}{:?}{:?}{c:^7}", c.rank(), c.suit(), c.rank_suit_string(), c.rank(), c.suit());
            }
            s
        }
        Order => {
            let n = 5 + x.below(3);
            let mut v: Vec<Eval> = (0..4).filter_map(|_| ev.evaluate(x.hand(n)).ok()).collect();
            v.sort();
            let sets = (v.iter().copied().collect::<HashSet<_>>().len(), v.iter().copied().collect::<BTreeSet<_>>());
            let mut h = x.hand(9);
            h.sort_by(|a, b| b.cmp(a));
            format!("{v:?}{:?}{sets:?}{h:?}{:?}{}", v.iter().max(), h.iter().min(), h[0] > h[8])
        }
        Classes => match ev.evaluate(x.hand(5)) {
            Ok(e) => {
                let c: EvalClass = e.class();
                format!("{c}|{c:?}|{}|{}|{}", c < Eval::BEST.class(), e.is_better_than(Eval::WORST), e.is_flush())
            }
            Err(e) => tell(e),
        },
        Nested => {
            let (a, b) = (x.hand(5), x.not_a_hand());
            eval(ev.evaluate(Nest(ev, a, b)))
        }
        Panicking => {
            let mut s = reported(|| ev.evaluate(Broken).is_ok());
            let k = x.below(70);
            s += &reported(|| named(deck::shuffled_with(&mut BrokenSource(k as u64))));
            let v = x.texts(true);
            let k = x.below(8);
            let broken = || v.clone().into_iter().enumerate().map(|(i, s)| if i == k { panic!("from the caller's iterator") } else { s });
            s += &reported(|| Card::parse_to_iter(broken()).try_collect::<Vec<_>>());
            s += &reported(|| Card::parse_to_iter(broken()).map(read).collect::<String>());
            let owner = BrokenOwner(v.clone());
            s + &reported(|| ev.evaluate(owner).is_ok())
        }
        _ => unreachable!("tested apart"),
    }
}

/// What the machinery has to notice, without any use of the crate.
fn stand_in(a: Act, place: &mut Place) -> String {
    match a {
        TestWrites => {
            let _ = std::io::stderr().write_all(b"x\n");
            String::new()
        }
        TestReads => {
            let _ = black_box(File::open("/nonexistent/file"));
            String::new()
        }
        TestWaits => {
            std::thread::sleep(std::time::Duration::from_millis(1));
            String::new()
        }
        TestAsks => format!("{:?}", std::env::var("POKER_TEST")),
        TestTime => format!("{}", std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.as_secs()) / 86_400),
        TestHook => {
            let _ = std::panic::take_hook();
            String::new()
        }
        TestVariables => {
            std::env::set_var("POKER_TEST_SET", "1");
            String::new()
        }
        TestAddress => at!(place, &[7u64], vec![1u64, 2], |s| format!("{}", s.as_ptr() as usize)),
        TestUnclean => {
            let v = Vec::<u8>::with_capacity(64);
            unsafe { format!("{}", v.as_ptr().add(5).read_volatile()) }
        }
        _ => unreachable!("a call of the crate"),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct World {
    /// What every variable contains; otherwise none is set that is not set here.
    answer: Option<String>,
    clock: i64,
    step: i64,
    /// The clock does not go on by itself.
    frozen: bool,
    fill: u8,
    place: u64,
    /// The calls are made in a thread with this name and this many KiB of stack.
    thread: Option<(String, usize)>,
    one_processor: bool,
    arguments: Vec<String>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    acts: Vec<Act>,
    rounds: u32,
    seed: u64,
    world: World,
}

/// What the calls give, one text for each, if many others were made before.
fn perform(c: &Case, place: u64, others: u64) -> Vec<String> {
    let mut place = Place(X(place));
    if c.acts.iter().all(|a| TESTS.iter().any(|t| t.0 == *a)) {
        return c.acts.iter().map(|&a| stand_in(a, &mut place)).collect();
    }
    let ev = Evaluator::new();
    DOING.store(u64::MAX, SeqCst);
    for i in 0..others {
        let a = ACTS[(mix(c.seed ^ i) % ACTS.len() as u64) as usize].0;
        black_box(act(a, &mut X(mix(!c.seed ^ i)), &mut place, &ev));
    }
    let mut out = vec![];
    for round in 0..c.rounds as u64 {
        for (i, &a) in c.acts.iter().enumerate() {
            DOING.store(out.len() as u64, SeqCst);
            let s = act(a, &mut X(mix(c.seed ^ round << 32 ^ (i as u64) << 56)), &mut place, &ev);
            out.push(s);
        }
    }
    out
}

static DECKS: Mutex<Vec<String>> = Mutex::new(vec![]);
static HOOKED: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    /// Panics in this thread that were reported to the panic hook.
    static REPORTED: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
static UNREPORTED: AtomicUsize = AtomicUsize::new(0);
/// A call in which the caller's code may panic: whether it does, and the hook has to see each panic once.
fn reported<T: std::fmt::Debug>(f: impl FnOnce() -> T) -> String {
    REPORTED.set(0);
    let r = catch_unwind(AssertUnwindSafe(f));
    if REPORTED.get() != r.is_err() as u32 {
        UNREPORTED.fetch_add(1, SeqCst);
    }
    format!("{:?}", r.ok())
}
fn variables() -> Vec<(std::ffi::OsString, std::ffi::OsString)> { std::env::vars_os().collect() }

#[derive(Serialize, Deserialize)]
struct Report {
    fence: bool,
    results: Vec<String>,
    decks: Vec<String>,
    effects: Vec<String>,
}

fn child(mut c: Case, ordinary: bool) -> ! {
    let mut others = 0;
    if ordinary {
        c.world = World { answer: None, clock: 0, step: 0, frozen: false, fill: 0, place: mix(c.seed), thread: None, one_processor: false, arguments: vec![] };
        others = mix(c.seed) % 3 * 30;
    }
    let c = &c;
    let results = unsafe {
        assert_eq!(libc::dup2(1, RESULTS), RESULTS);
        let outputs = libc::memfd_create(c"outputs".as_ptr(), 0);
        assert!(outputs > 2 && libc::dup2(outputs, 1) == 1 && libc::dup2(outputs, 2) == 2);
        if c.world.one_processor {
            let mut set: libc::cpu_set_t = std::mem::zeroed();
            if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) == 0 {
                let first = (0..1024).find(|&i| libc::CPU_ISSET(i, &set)).unwrap_or(0);
                libc::CPU_ZERO(&mut set);
                libc::CPU_SET(first, &mut set);
                libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
            }
        }
        File::from_raw_fd(RESULTS)
    };
    if let Some(a) = &c.world.answer {
        ANSWER.store(CString::new(a.as_str()).expect("no zero").into_raw(), SeqCst);
    }
    CLOCK.store(c.world.clock, SeqCst);
    STEP.store(c.world.step, SeqCst);
    FROZEN.store(c.world.frozen, SeqCst);
    std::panic::set_hook(Box::new(|_| {
        REPORTED.set(REPORTED.get() + 1);
        HOOKED.fetch_add(1, SeqCst);
    }));
    let _ = std::thread::spawn(|| black_box(1)).join();
    let before = variables();
    let fence = std::env::var_os("PC_NO_FENCE").is_none() && raise_fence();
    FILL.store(c.world.fill, SeqCst);
    let go = || {
        ARMED.store(true, SeqCst);
        let r = catch_unwind(AssertUnwindSafe(|| perform(c, c.world.place, others)));
        ARMED.store(false, SeqCst);
        r.unwrap_or_else(|e| vec![format!("panics: {}", pokercheck::driver::panic_text(&*e))])
    };
    let results_of = match &c.world.thread {
        Some((name, kib)) => std::thread::scope(|s| {
            std::thread::Builder::new().name(name.clone()).stack_size(kib << 10).spawn_scoped(s, go).expect("a thread").join().expect("joins")
        }),
        None => go(),
    };
    let mut effects: Vec<String> = (0..NOTED.load(SeqCst).min(MOST))
        .map(|i| {
            let n = unsafe { &(*NOTES.0.get())[i] };
            String::from_utf8_lossy(&n[..n.iter().position(|b| *b == 0).unwrap_or(n.len())]).into_owned()
        })
        .collect();
    if before != variables() {
        effects.push("the environment is changed".into());
    }
    let hooked = HOOKED.load(SeqCst);
    let panics = others > 0 || c.acts.contains(&Panicking);
    if hooked > 0 && !panics {
        effects.push(format!("{hooked} panics were reported to the panic hook"));
    }
    if UNREPORTED.load(SeqCst) > 0 {
        effects.push("a panic of the caller's code is not reported to the panic hook once".into());
    }
    let noted = NOTED.load(SeqCst);
    let _ = catch_unwind(|| panic!("to see whether the hook is still there"));
    if HOOKED.load(SeqCst) != hooked + 1 || NOTED.load(SeqCst) != noted {
        effects.push("the panic hook is changed".into());
    }
    if !fence && unsafe { libc::lseek(1, 0, libc::SEEK_CUR) } > 0 {
        effects.push("writes to the output".into());
    }
    let mut results = results;
    let text = serde_json::to_string(&Report { fence, results: results_of, decks: std::mem::take(&mut *DECKS.lock().unwrap()), effects }).expect("json");
    let ok = results.write_all(text.as_bytes()).is_ok();
    exit(if ok { 0 } else { 3 })
}

/// What a process with the surroundings of the case, or with ordinary ones, has to say.
fn report(c: &Case, ordinary: bool) -> Result<Report, String> {
    let mut p = Command::new(std::env::current_exe().expect("own path"));
    p.args([if ordinary { "ordinary" } else { "case" }, &serde_json::to_string(c).unwrap()]).stdin(Stdio::null()).stderr(Stdio::null());
    if !ordinary {
        p.args(&c.world.arguments);
        p.envs(c.world.answer.iter().flat_map(|a| ["POKER_DEBUG", "POKER_LOG", "DEBUG", "NO_COLOR", "LANG", "LC_ALL", "TZ", "COLUMNS"].map(|k| (k, a))));
    }
    let out = p.output().expect("a process");
    match serde_json::from_slice(&out.stdout) {
        Ok(r) if out.status.success() => Ok(r),
        _ => Err(format!("the process that makes the calls ended with {}, without results", out.status)),
    }
}

fn in_a_world(c: &Case) -> Outcome {
    let (here, ordinary) = (report(c, false)?, report(c, true)?);
    if c.acts.contains(&Shuffle) {
        let again = report(c, false)?;
        let mut seen = HashSet::new();
        if let Some(d) = [&here, &ordinary, &again].iter().flat_map(|r| &r.decks).find(|d| !seen.insert(*d)) {
            return Err(format!("two processes or calls get the same shuffled deck: {d}"));
        }
    }
    let name = |call: usize| {
        let a = c.acts[call % c.acts.len().max(1)];
        ACTS.iter().find(|x| x.0 == a).map_or(format!("{a:?}"), |x| x.1.to_string())
    };
    for r in [&here, &ordinary] {
        if let Some(e) = r.effects.first() {
            let call = e.rsplit_once(" in call ").and_then(|(_, n)| n.parse::<usize>().ok()).filter(|n| *n < r.results.len()).map(name);
            return Err(format!("{}: {e}", call.unwrap_or("the calls".into())));
        }
    }
    let (here, ordinary) = (here.results, ordinary.results);
    for (i, (a, b)) in ordinary.iter().zip(&here).enumerate() {
        if a != b {
            let k = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
            let part = |s: &str| s.chars().skip(s.bytes().take(k).filter(|b| b & 0xc0 != 0x80).count().saturating_sub(20)).take(80).collect::<String>();
            return Err(format!("{}, call {i}: gives '…{}' here, and ordinarily '…{}'", name(i), part(b), part(a)));
        }
    }
    if ordinary.len() != here.len() {
        return Err(format!("ordinarily {} results, here {}", ordinary.len(), here.len()));
    }
    Ok(match c.acts.len() {
        0 => None,
        1 => ACTS.iter().find(|x| x.0 == c.acts[0]).map(|x| x.1).or(Some("a test of the machinery")),
        _ => Some("several kinds of call"),
    })
}

fn a_world() -> impl Strategy<Value = World> {
    let answer = prop_oneof![
        Just(None),
        proptest::sample::select(vec!["1", "0", "", "true", "debug", "trace", "7", "C", "de_DE.UTF-8", "/nonexistent/x", "never", "As Ks", "-1", "é"]).prop_map(|s| Some(s.to_string())),
    ];
    let clock = prop_oneof![Just(0i64), Just(-4_000_000_000), Just(4_000_000_000), -100_000_000i64..100_000_000];
    let step = prop_oneof![Just(0i64), 1i64..100, 1000i64..10_000_000];
    let fill = prop_oneof![Just(0u8), Just(0xff), Just(1), any::<u8>()];
    let thread = proptest::option::of((proptest::sample::select(vec!["main", "worker", "tokio-runtime-worker", "x", "test"]), proptest::sample::select(vec![256usize, 1024, 16384])));
    let arguments = proptest::collection::vec(proptest::sample::select(vec!["--debug", "-v", "--verbose", "--seed=1", "As", "--quiet", "test", "--nocapture", "bench"]), 0..4);
    (answer, clock, (step, any::<bool>()), fill, any::<u64>(), thread, any::<bool>(), arguments).prop_map(|(answer, clock, (step, frozen), fill, place, thread, one_processor, arguments)| World {
        answer,
        clock,
        step,
        frozen,
        fill,
        place,
        thread: thread.map(|(n, k)| (n.to_string(), k)),
        one_processor,
        arguments: arguments.into_iter().map(String::from).collect(),
    })
}
fn a_case(lo: usize, hi: usize, rounds: u32) -> impl Strategy<Value = Case> {
    let acts = proptest::collection::vec(proptest::sample::select(ACTS.iter().map(|a| a.0).collect::<Vec<_>>()), lo..=hi);
    (acts, any::<u64>(), a_world(), 1u32..=rounds).prop_map(|(acts, seed, world, rounds)| Case { acts, rounds, seed, world })
}

/// The surroundings must make a difference to what does depend on them, and effects must be noted.
fn self_test() -> bool {
    let world = World {
        answer: Some("1".into()),
        clock: 10_000_000,
        step: 0,
        frozen: false,
        fill: 0xa5,
        place: 9,
        thread: None,
        one_processor: true,
        arguments: vec!["--debug".into()],
    };
    let case = |acts| Case { acts, rounds: 1, seed: 5, world: world.clone() };
    let fence = report(&case(vec![]), false).map_or(true, |r| r.fence);
    for (a, what) in TESTS {
        match in_a_world(&case(vec![a])) {
            Err(m) if m.contains(what) => {}
            _ if !fence && matches!(a, TestReads | TestWaits | TestWrites) => {}
            o => panic!("the machinery does not see {a:?}: {o:?}"),
        }
    }
    fence
}

fn run(ctx: &Ctx) {
    let length = if ctx.thorough { 400 } else { 60 };
    ctx.random("one-kind-of-call-in-strange-surroundings", ctx.n(6000, 100_000), || a_case(1, 1, length * 2), in_a_world);
    ctx.random("programs-in-strange-surroundings", ctx.n(4000, 60_000), || a_case(2, 8, length / 2), in_a_world);
    ctx.random("first-calls-in-strange-surroundings", ctx.n(5000, 60_000), || a_case(1, 3, 1), in_a_world);
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if let Some("case" | "ordinary") = args.first().map(|a| a.as_str()) {
        child(serde_json::from_str(&args[1]).expect("a case"), args[0] == "ordinary");
    }
    std::panic::set_hook(Box::new(|info| {
        // Panics of the generated callers are caught; one in the machinery must be seen.
        if std::env::var_os("PC_PANICS").is_some() || info.payload().downcast_ref::<String>().map_or(false, |s| s.contains("machinery")) {
            eprintln!("{info}");
        }
    }));
    let arg = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    match args.first().map(|s| s.as_str()) {
        Some("run") => {
            let seed = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let (part, replays) = (PathBuf::from(arg("--part").expect("--part")), PathBuf::from(arg("--replays").expect("--replays")));
            let ctx = Ctx::new("C23", arg("--tier").as_deref() == Some("thorough"), seed, &arg("--profile").unwrap_or("release".into()))
                .writes_to(part.clone(), replays.clone());
            model::self_test(seed);
            let fence = self_test();
            run(&ctx);
            if !fence {
                ctx.note("programs-in-strange-surroundings", "this system does not filter system calls: only what reaches the outputs, the environment or the results was seen".into());
            }
            exit(ctx.finish(&part, &replays));
        }
        Some("replay") => {
            let doc: Value = serde_json::from_str(&std::fs::read_to_string(&args[1]).expect("replay file")).expect("json");
            println!("C23 {}: {}", doc["sub"], doc["case"]);
            match replay::<Case>(&doc["case"], in_a_world) {
                Ok(_) => println!("holds"),
                Err(m) => {
                    println!("VIOLATED: {m}");
                    exit(1)
                }
            }
        }
        _ => exit(2),
    }
}
