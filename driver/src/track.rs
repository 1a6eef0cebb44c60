//! The system allocator; between `on` and `off` every block is recorded, filled, fenced, and kept (poisoned) when it is freed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Track;
const N: usize = 1 << 13;
const FENCE: usize = 64;
#[derive(Clone, Copy)]
struct B {
    p: usize,
    size: usize,
    align: usize,
    live: bool,
}
static mut TAB: [B; N] = [B { p: 0, size: 0, align: 0, live: false }; N];
static mut LEN: usize = 0;
static mut BAD: u32 = 0;
static mut FAIL: bool = false;
/// The next recorded request is refused.
pub fn fail() {
    unsafe { FAIL = true }
}
thread_local! { static ON: Cell<bool> = const { Cell::new(false) }; }

pub const DOUBLE: u32 = 1;
pub const LAYOUT: u32 = 2;
pub const FENCED: u32 = 4;
pub const FULL: u32 = 8;
pub const ZERO: u32 = 16;
pub const INSIDE: u32 = 32;

fn pad(l: Layout) -> usize {
    FENCE.max(l.align())
}
unsafe fn fenced(b: &B) -> bool {
    let pre = FENCE.max(b.align);
    (0..pre).all(|i| *((b.p - pre + i) as *const u8) == 0xA7) && (0..FENCE).all(|i| *((b.p + b.size + i) as *const u8) == 0xA7)
}
unsafe impl GlobalAlloc for Track {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ON.with(|x| x.get()) {
            return System.alloc(l);
        }
        if FAIL {
            FAIL = false;
            return std::ptr::null_mut();
        }
        if l.size() == 0 {
            BAD |= ZERO;
        }
        if LEN == N {
            BAD |= FULL;
            return System.alloc(l);
        }
        let Some(s) = l.size().checked_add(pad(l) + FENCE) else { return std::ptr::null_mut() };
        let Ok(w) = Layout::from_size_align(s, l.align()) else { return std::ptr::null_mut() };
        let base = System.alloc(w);
        if base.is_null() {
            return base;
        }
        std::ptr::write_bytes(base, 0xA7, s);
        let p = base.add(pad(l));
        std::ptr::write_bytes(p, 0xC3, l.size());
        TAB[LEN] = B { p: p as usize, size: l.size(), align: l.align(), live: true };
        LEN += 1;
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        for i in 0..LEN {
            let b = &raw mut TAB[i];
            if (*b).p != p as usize {
                if ON.with(|x| x.get()) && (*b).p < p as usize && (p as usize) < (*b).p + (*b).size {
                    BAD |= INSIDE;
                    return;
                }
                continue;
            }
            if !(*b).live {
                BAD |= DOUBLE;
                return;
            }
            if (*b).size != l.size() || (*b).align != l.align() {
                BAD |= LAYOUT;
            }
            if !fenced(&*b) {
                BAD |= FENCED;
            }
            (*b).live = false;
            std::ptr::write_bytes(p, 0xDD, (*b).size);
            return;
        }
        System.dealloc(p, l)
    }
}
/// Records what `f` does.
pub fn on<T>(f: impl FnOnce() -> T) -> T {
    struct Off(bool);
    impl Drop for Off {
        fn drop(&mut self) {
            ON.with(|x| x.set(self.0))
        }
    }
    let _off = Off(ON.with(|x| x.replace(true)));
    f()
}
pub fn off<T>(f: impl FnOnce() -> T) -> T {
    let old = ON.with(|x| x.replace(false));
    let r = f();
    ON.with(|x| x.set(old));
    r
}
pub fn live() -> usize {
    unsafe { (0..LEN).filter(|i| TAB[*i].live).count() }
}
pub fn bytes() -> usize {
    unsafe { (0..LEN).filter(|i| TAB[*i].live).map(|i| TAB[i].size).sum() }
}
pub fn bad() -> u32 {
    unsafe {
        for i in 0..LEN {
            let b = TAB[i];
            if b.live && !fenced(&b) {
                BAD |= FENCED;
            }
        }
        BAD
    }
}
/// [p, p + n) is in a live block.
pub fn within(p: usize, n: usize) -> bool {
    unsafe { (0..LEN).any(|i| TAB[i].live && TAB[i].p <= p && p + n <= TAB[i].p + TAB[i].size) }
}
/// Gives back what is kept, forgets what is still live (it stays allocated).
pub fn reset() {
    ON.with(|x| x.set(false));
    unsafe {
        for i in 0..LEN {
            let b = TAB[i];
            if !b.live {
                let pre = FENCE.max(b.align);
                System.dealloc((b.p - pre) as *mut u8, Layout::from_size_align_unchecked(b.size + pre + FENCE, b.align));
            }
        }
        LEN = 0;
        BAD = 0;
    }
}
