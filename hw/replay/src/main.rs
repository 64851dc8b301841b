//! Native replay of a symbolic counterexample or witness against the real code.
//! replay <entry> <file> <params>: exit 0 = ran to the end, 1 = assertion or panic, 2 = assumption not met
#[path = "../../harness/src/lib.rs"]
mod h;
use std::sync::Mutex;
struct R {
    objs: Vec<(String, Vec<u8>)>,
    next: usize,
    params: Vec<u64>,
    logs: Vec<u64>,
    covers: Vec<u32>,
    clock: Option<(u64, u64)>,
}
static R: Mutex<R> = Mutex::new(R { objs: vec![], next: 0, params: vec![], logs: vec![], covers: vec![], clock: None });
#[no_mangle]
extern "C" fn __sym_make(p: *mut u8, n: usize, _name: *const u8, _nl: usize) {
    let mut r = R.lock().unwrap();
    let i = r.next;
    r.next += 1;
    if i >= r.objs.len() {
        println!("REPLAY diverged: more symbolic objects than recorded");
        std::process::exit(3);
    }
    let b = &r.objs[i].1;
    assert_eq!(b.len(), n, "object size");
    unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p, n) }
}
#[no_mangle]
extern "C" fn __sym_assume(c: bool) {
    if !c {
        println!("REPLAY assumption not met");
        std::process::exit(2);
    }
}
#[no_mangle]
extern "C" fn __sym_assert(c: bool, id: u32) {
    if !c {
        println!("REPLAY assertion {id} failed");
        std::process::exit(1);
    }
}
#[no_mangle]
extern "C" fn __sym_cover(id: u32) {
    R.lock().unwrap().covers.push(id);
}
#[no_mangle]
extern "C" fn __sym_conc(x: u64) -> u64 {
    x
}
#[no_mangle]
extern "C" fn __sym_clock(s: u64, n: u64) {
    R.lock().unwrap().clock = Some((s, n));
}
#[no_mangle]
extern "C" fn __sym_log(x: u64) {
    R.lock().unwrap().logs.push(x);
}
#[no_mangle]
extern "C" fn __sym_param(i: u32) -> u64 {
    R.lock().unwrap().params[i as usize]
}
static LIVE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
struct Counting;
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        LIVE.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        LIVE.fetch_sub(1, std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        std::alloc::System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        LIVE.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.alloc_zeroed(l)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;
#[no_mangle]
extern "C" fn __sym_live() -> u64 {
    LIVE.load(std::sync::atomic::Ordering::Relaxed)
}
extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
/// Interposes libc's clock so that the recorded symbolic time is what the real code sees.
#[no_mangle]
extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
    if id == 0 {
        if let Ok(r) = R.try_lock() {
            if let Some((s, n)) = r.clock {
                unsafe { *ts = [s as i64, n as i64] };
                return 0;
            }
        }
    }
    unsafe { syscall(228, id as i64, ts) as i32 }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let t = std::fs::read_to_string(&a[2]).unwrap();
    let mut want_log = vec![];
    let mut want_cov: Vec<u32> = vec![];
    {
        let mut r = R.lock().unwrap();
        for l in t.lines() {
            let w: Vec<&str> = l.split(' ').collect();
            match w[0] {
                "obj" => {
                    let hx = w.get(2).copied().unwrap_or("");
                    let b = (0..hx.len() / 2).map(|i| u8::from_str_radix(&hx[2 * i..2 * i + 2], 16).unwrap()).collect();
                    r.objs.push((w[1].to_string(), b));
                }
                "log" => want_log.push(w[1].parse::<u128>().unwrap() as u64),
                "cover" => want_cov.push(w[1].parse().unwrap()),
                _ => {}
            }
        }
        r.params = a.get(3).map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    }
    let f = match h::ENTRIES.iter().find(|e| e.0 == a[1]) {
        Some(f) => f.1,
        None => {
            println!("REPLAY no entry");
            std::process::exit(3)
        }
    };
    // big stack: the executor has no stack limit
    let j = std::thread::Builder::new().stack_size(256 << 20).spawn(move || f()).unwrap().join();
    if j.is_err() {
        println!("REPLAY panicked");
        std::process::exit(1);
    }
    let r = R.lock().unwrap();
    if t.starts_with("# witness") {
        let mut c = r.covers.clone();
        c.sort();
        c.dedup();
        if c != want_cov || r.logs != want_log || r.next != r.objs.len() {
            println!("REPLAY diverged from the symbolic run: covers {:?} vs {:?}, logs {:?} vs {:?}", c, want_cov, r.logs, want_log);
            std::process::exit(4);
        }
    }
    println!("REPLAY completed");
}
