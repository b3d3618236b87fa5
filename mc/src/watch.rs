//! The explorer runs as a child process. What each of its workers is doing is kept in a
//! shared mapping, so that its parent can name the case when the child hangs or dies.
use serde_json::{json, Value};
use std::cell::Cell;
use std::sync::atomic::{AtomicPtr, AtomicUsize, Ordering::*};

const SLOTS: usize = 64;
const SIZE: usize = 96 << 10;
const MAX: usize = 40 << 10;

#[repr(C)]
struct Slot {
    /// milliseconds since the epoch, 0 when idle
    start: std::sync::atomic::AtomicU64,
    prop: [u8; 8],
    kind: u32,
    aspects: u32,
    lens: [u32; 3],
    // texts follow
}

static BASE: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static NEXT: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static MINE: Cell<usize> = const { Cell::new(usize::MAX) };
}

fn now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}

fn map(file: &std::path::Path, create: bool) -> *mut u8 {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(create).truncate(create).open(file).expect("watch file");
    if create {
        f.set_len((SLOTS * SIZE) as u64).unwrap();
    }
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), SLOTS * SIZE, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
        assert!(p != libc::MAP_FAILED);
        p as *mut u8
    }
}

/// In the child: attach to the mapping the parent made.
pub fn attach() {
    if let Ok(f) = std::env::var("MC_WATCH") {
        BASE.store(map(std::path::Path::new(&f), false), SeqCst);
    }
}

pub const KINDS: [&str; 6] = ["parse", "eval", "history", "custom", "other", "threads"];

/// Start of a case; the same thread's next call ends it. With `again`, the slot keeps its
/// texts and only the clock starts anew.
pub fn begin(kind: usize, aspects: u32, funcs: &str, text: &str, doc: &str) {
    let b = BASE.load(Relaxed);
    if b.is_null() {
        return;
    }
    let i = MINE.with(|m| {
        if m.get() == usize::MAX {
            m.set(NEXT.fetch_add(1, Relaxed) % SLOTS);
        }
        m.get()
    });
    unsafe {
        let p = b.add(i * SIZE);
        let s = &mut *(p as *mut Slot);
        s.start.store(0, Relaxed);
        s.kind = kind as u32;
        s.aspects = aspects;
        let mut at = p.add(std::mem::size_of::<Slot>());
        for (k, t) in [funcs, text, doc].iter().enumerate() {
            let n = t.len().min(if k == 0 { 64 } else { MAX });
            std::ptr::copy_nonoverlapping(t.as_ptr(), at, n);
            s.lens[k] = n as u32;
            at = at.add(n);
        }
        s.start.store(now(), Release);
    }
}

pub fn end() {
    let b = BASE.load(Relaxed);
    let i = MINE.with(|m| m.get());
    if !b.is_null() && i != usize::MAX {
        unsafe { (*(b.add(i * SIZE) as *mut Slot)).start.store(0, Relaxed) }
    }
}

struct Case {
    since: u64,
    kind: String,
    data: Value,
    input: String,
}

fn cases(b: *mut u8) -> Vec<Case> {
    let mut v = vec![];
    for i in 0..SLOTS {
        unsafe {
            let p = b.add(i * SIZE);
            let s = &*(p as *const Slot);
            let t = s.start.load(Acquire);
            if t == 0 {
                continue;
            }
            let mut at = p.add(std::mem::size_of::<Slot>());
            let mut x = vec![];
            for k in 0..3 {
                x.push(String::from_utf8_lossy(std::slice::from_raw_parts(at, s.lens[k] as usize)).into_owned());
                at = at.add(s.lens[k] as usize);
            }
            v.push(Case {
                since: t,
                kind: KINDS[(s.kind as usize).min(5)].into(),
                input: if x[2].is_empty() { x[1].clone() } else { format!("{} on {}", x[1], x[2]) },
                data: json!({"text": x[1], "doc": x[2], "funcs": x[0], "aspects": s.aspects}),
            });
        }
    }
    v.sort_by_key(|c| c.since);
    v
}

/// In the parent: run the same command as a child and watch over it.
pub fn supervise(prop: &str, tier: &str, limit_ms: u64) -> i32 {
    let dir = crate::report::root().join("target");
    let _ = std::fs::create_dir_all(&dir);
    let file = dir.join(format!("watch-{prop}-{}", std::process::id()));
    let b = map(&file, true);
    let mut child = std::process::Command::new(std::env::current_exe().unwrap())
        .args([prop, tier])
        .env("MC_WATCH", &file)
        .spawn()
        .expect("child");
    let fail = |what: &str, c: Option<&Case>, msg: String| -> i32 {
        let rdir = crate::report::root().join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let f = rdir.join(format!("{prop}-watch.json"));
        let none = Case { since: 0, kind: "other".into(), data: json!({}), input: String::new() };
        let c = c.unwrap_or(&none);
        let _ = std::fs::write(
            &f,
            serde_json::to_string_pretty(&json!({"property": prop, "kind": c.kind, "who": "process", "what": what, "input": c.input, "data": c.data, "msg": msg})).unwrap(),
        );
        println!("VIOLATION property={prop} replay={}", f.display());
        println!("  {what}: {:?}\n    {msg}", c.input.chars().take(300).collect::<String>());
        1
    };
    let rc = loop {
        match child.try_wait().expect("wait") {
            Some(st) => {
                use std::os::unix::process::ExitStatusExt;
                if let Some(c) = st.code() {
                    break c;
                }
                if !matches!(st.signal(), Some(libc::SIGSEGV | libc::SIGABRT | libc::SIGBUS | libc::SIGILL | libc::SIGFPE)) {
                    eprintln!("the explorer was ended by signal {:?}", st.signal());
                    break 2;
                }
                // the most recent case is the likeliest; all that were under way are kept
                let cs = cases(b);
                let msg = format!("the process was ended by signal {:?} (stack overflow or abort); cases under way: {}", st.signal(), cs.iter().map(|c| format!("{:?}", c.input.chars().take(120).collect::<String>())).collect::<Vec<_>>().join("; "));
                break fail("crashes", cs.last(), msg);
            }
            None => {
                let cs = cases(b);
                if let Some(c) = cs.first() {
                    let t = now().saturating_sub(c.since);
                    if t > limit_ms {
                        let _ = child.kill();
                        let _ = child.wait();
                        break fail("hangs", Some(c), format!("no answer after {} s", t / 1000));
                    }
                }
                std::thread::sleep(std::time::Duration::from_millis(20));
            }
        }
    };
    let _ = std::fs::remove_file(&file);
    rc
}
