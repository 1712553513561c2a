//! Observation of what calls do to the world outside their arguments: a system call filter on the
//! threads that make the calls turns each effect (output, files, network, processes, entropy) into
//! a signal; the handler notes the number of the system call and lets it fail.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::ptr::null_mut;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering};

extern "C" {
    fn prctl(op: i32, ...) -> i32;
    fn sigaction(sig: i32, act: *const Act, old: *mut Act) -> i32;
    fn mallopt(op: i32, v: i32) -> i32;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn open(p: *const u8, flags: i32, ...) -> i32;
}

#[repr(C)]
struct Act {
    handler: extern "C" fn(i32, *const u8, *mut u8),
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
#[repr(C)]
struct Insn(u16, u8, u8, u32);
#[repr(C)]
struct Prog {
    len: u16,
    p: *const Insn,
}

/// system calls with an effect on, or information from, the outside (x86-64)
const EFFECTS: &[u32] = &[
    0, 1, 2, 4, 5, 6, 8, 16, 17, 18, 19, 20, 21, 22, 29, 30, 31, 32, 33, 40, 41, 42, 43, 44, 45, 46, 47, 49, 50, 53, 57, 58, 59, 62, 64, 65,
    66, 68, 69, 70, 71, 74, 75, 76, 77, 78, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 101, 132, 133, 161, 162, 165, 169, 170,
    200, 217, 234, 235, 240, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 275, 276, 277, 278, 280, 285, 288, 292, 293,
    295, 296, 297, 299, 307, 310, 311, 316, 318, 319, 322, 326, 327, 328, 332, 425, 426, 437, 439, 452,
];
const TAGS: usize = 64;
const KEEP: usize = 32;
static NOTES: [[AtomicU32; KEEP]; TAGS] = [const { [const { AtomicU32::new(0) }; KEEP] }; TAGS];
static COUNT: [AtomicUsize; TAGS] = [const { AtomicUsize::new(0) }; TAGS];
thread_local! { static TAG: Cell<usize> = const { Cell::new(0) }; }

extern "C" fn note(_: i32, info: *const u8, ctx: *mut u8) {
    // siginfo: number of the call at offset 24; ucontext: result register at offset 144
    let nr = unsafe { *(info.add(24) as *const u32) };
    let t = TAG.with(|t| t.get());
    let k = COUNT[t].fetch_add(1, Ordering::SeqCst);
    if k < KEEP {
        NOTES[t][k].store(nr, Ordering::SeqCst);
    }
    unsafe { *(ctx.add(144) as *mut i64) = if nr == 1 || nr == 20 { -9 } else { -1 } }
}

/// threads started later by calls of the library itself carry tag 0
pub fn tag(t: usize) {
    TAG.with(|x| x.set(t % TAGS));
}
pub fn current() -> usize {
    TAG.with(|t| t.get())
}

/// the effects noted for a tag, and for threads without one, since the last time
pub fn drain(t: usize) -> Vec<u32> {
    let mut v = vec![];
    for t in [t, 0] {
        let n = COUNT[t].swap(0, Ordering::SeqCst).min(KEEP);
        v.extend(NOTES[t][..n].iter().map(|x| x.load(Ordering::SeqCst)));
    }
    v
}

pub fn handle() {
    // one arena: with several, the C library's allocator consults /proc and /sys
    unsafe { mallopt(-8, 1) };
    POOLED.store(true, Ordering::SeqCst);
    let a = Act { handler: note, mask: [0; 16], flags: 0x4 | 0x4000_0000, restorer: 0 };
    if unsafe { sigaction(31, &a, std::ptr::null_mut()) } != 0 {
        crate::bad("sigaction")
    }
}

/// from now on for this thread and the threads it starts
pub fn start() {
    let mut p = vec![Insn(0x20, 0, 0, 0)];
    for &e in EFFECTS {
        p.push(Insn(0x15, 0, 1, e));
        p.push(Insn(0x06, 0, 0, 0x0003_0000));
    }
    // clone that does not make a thread
    p.push(Insn(0x15, 0, 3, 56));
    p.push(Insn(0x20, 0, 0, 16));
    p.push(Insn(0x45, 1, 0, 0x10000));
    p.push(Insn(0x06, 0, 0, 0x0003_0000));
    p.push(Insn(0x06, 0, 0, 0x7fff_0000));
    let prog = Prog { len: p.len() as u16, p: p.as_ptr() };
    unsafe {
        if prctl(38, 1usize, 0usize, 0usize, 0usize) != 0 || prctl(22, 2usize, &prog as *const Prog, 0usize, 0usize) != 0 {
            crate::bad("system call filter refused")
        }
    }
}

/// effects that must be noted, to see that the observation works
pub fn probe() {
    println!("probe");
    unsafe {
        write(2, b"p".as_ptr(), 1);
        open(b"/dev/null\0".as_ptr(), 0);
    }
    let _ = std::fs::read("/etc/hostname");
}

/// With one arena, threads that allocate much would wait for each other, so each keeps what it freed.
pub struct Pools;
static POOLED: AtomicBool = AtomicBool::new(false);
const CLASSES: usize = 22;
thread_local! { static FREE: [Cell<*mut u8>; CLASSES] = const { [const { Cell::new(null_mut()) }; CLASSES] }; }

/// blocks of up to 2 MB have a power of two as size
fn class(l: &Layout) -> Option<(usize, Layout)> {
    let k = l.size().max(16).next_power_of_two().trailing_zeros() as usize;
    (k < CLASSES && l.align() <= 16).then(|| (k, unsafe { Layout::from_size_align_unchecked(1 << k, 16) }))
}

unsafe impl GlobalAlloc for Pools {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let Some((k, c)) = class(&l) else { return System.alloc(l) };
        if POOLED.load(Ordering::Relaxed) {
            let p = FREE.with(|f| {
                let p = f[k].get();
                if !p.is_null() {
                    f[k].set(*(p as *mut *mut u8));
                }
                p
            });
            if !p.is_null() {
                return p;
            }
        }
        System.alloc(c)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let Some((k, c)) = class(&l) else { return System.dealloc(p, l) };
        if POOLED.load(Ordering::Relaxed) {
            FREE.with(|f| {
                *(p as *mut *mut u8) = f[k].get();
                f[k].set(p);
            });
        } else {
            System.dealloc(p, c)
        }
    }
}
