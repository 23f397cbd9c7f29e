//! Runs the harnesses natively, against the real crates, on recorded inputs.
//!
//!   batch FILE            every line "name p,p hexinput outcome obs" must end the same way here
//!   one NAME p,p HEX      run one input and print how it ended
use std::cell::RefCell;
use std::panic;

#[cfg(feature = "guard")]
mod guard {
    //! Every heap allocation ends at an inaccessible page, and freed memory stays inaccessible.
    use std::alloc::{GlobalAlloc, Layout};
    pub struct Guard;
    extern "C" {
        fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
        fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
    }
    unsafe impl GlobalAlloc for Guard {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let size = l.size();
            let pages = (size + 4095) / 4096 * 4096;
            let p = mmap(std::ptr::null_mut(), pages + 4096, 3, 0x22, -1, 0);
            if p as isize == -1 {
                return std::ptr::null_mut();
            }
            mprotect(p.add(pages), 4096, 0);
            let off = pages - size;
            p.add(off / l.align() * l.align())
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            let base = (p as usize) / 4096 * 4096;
            let end = (p as usize + l.size() + 4095) / 4096 * 4096;
            mprotect(base as *mut u8, end - base, 0);
        }
    }
    #[global_allocator]
    static G: Guard = Guard;
}

struct State {
    input: Vec<u8>,
    pos: usize,
    obs: u64,
    checks: u64,
    trace: bool,
}
thread_local! {
    static ST: RefCell<State> = RefCell::new(State { input: vec![], pos: 0, obs: 0, checks: 0, trace: false });
    static LAST: RefCell<String> = RefCell::new(String::new());
}

struct Dead;
struct Failed(u32);

fn next() -> u8 {
    let b = ST.with(|s| {
        let mut s = s.borrow_mut();
        let p = s.pos;
        s.pos += 1;
        s.input.get(p).copied()
    });
    b.unwrap_or(0)
}
#[no_mangle]
pub extern "C-unwind" fn sym_byte() -> u8 {
    next()
}
#[no_mangle]
pub extern "C-unwind" fn sym_choice(n: u32) -> u32 {
    let v = next() as u32;
    if v >= n {
        panic::panic_any(Dead);
    }
    v
}
#[no_mangle]
pub extern "C-unwind" fn sym_assume(c: bool) {
    if !c {
        panic::panic_any(Dead);
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_check(c: bool, id: u32) {
    ST.with(|s| s.borrow_mut().checks += 1);
    if !c {
        panic::panic_any(Failed(id));
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_observe(p: *const u8, n: usize) {
    let b = unsafe { std::slice::from_raw_parts(p, n) };
    let trace = ST.with(|s| {
        let mut s = s.borrow_mut();
        for x in b {
            s.obs = (s.obs ^ *x as u64).wrapping_mul(0x0000_0100_0000_01b3);
        }
        s.trace
    });
    if trace {
        println!("observe {:?}", String::from_utf8_lossy(b));
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_reach(_id: u32) {}
#[no_mangle]
pub extern "C-unwind" fn sym_tag(_id: u64) {}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn run(name: &str, ps: &str, hex: &str, trace: bool) -> (String, u64) {
    let f = match rsharness::HARNESSES.iter().find(|h| h.0 == name) {
        Some(h) => h.1,
        None => return ("NO-SUCH-HARNESS".into(), 0),
    };
    let mut p = ps.split(',').filter(|x| !x.is_empty()).map(|x| x.parse::<u64>().unwrap());
    let (a, b) = (p.next().unwrap_or(0), p.next().unwrap_or(0));
    let input = unhex(hex);
    ST.with(|s| *s.borrow_mut() = State { input, pos: 0, obs: 0xcbf2_9ce4_8422_2325, checks: 0, trace });
    let r = panic::catch_unwind(|| f(a, b));
    let (obs, short) = ST.with(|s| {
        let s = s.borrow();
        (s.obs, s.pos > s.input.len())
    });
    let o = match r {
        Ok(()) => "OK".to_string(),
        Err(e) => {
            if let Some(Failed(id)) = e.downcast_ref::<Failed>() {
                format!("CHECK-FAILED {}", id)
            } else if e.is::<Dead>() {
                "DEAD".to_string()
            } else {
                format!("PANIC {}", LAST.with(|l| l.borrow().clone()))
            }
        }
    };
    if short {
        return (format!("SHORT-INPUT {}", o), obs);
    }
    (o, obs)
}

fn main() {
    panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            return;
        };
        let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|x| *x.borrow_mut() = m.replace('\n', "\\n") + &l);
    }));
    let args: Vec<String> = std::env::args().collect();
    match args[1].as_str() {
        "batch" => {
            let text = std::fs::read_to_string(&args[2]).unwrap();
            let (mut n, mut bad) = (0u64, 0u64);
            for l in text.lines() {
                let f: Vec<&str> = l.split(' ').collect();
                let (o, obs) = run(f[0], f[1], f[2], false);
                n += 1;
                if o != "OK" || format!("{:016x}", obs) != f[4] {
                    bad += 1;
                    if bad <= 5 {
                        println!("MISMATCH {} native={} obs={:016x}", l, o, obs);
                    }
                }
            }
            println!("BATCH {} {}", n, bad);
        }
        "one" => {
            let (o, _) = run(&args[2], &args[3], &args[4], true);
            println!("OUTCOME {}", o);
        }
        _ => panic!("usage"),
    }
}
