//! Interface of simrt.c.
use std::alloc::{GlobalAlloc, Layout};

#[repr(C)]
#[derive(Clone)]
pub struct Cfg {
    pub kind: i32,
    pub p_inv: u32,
    pub seed: u64,
    pub d: i32,
    pub horizon: u64,
    pub spurious_inv: u32,
    pub step_cap: u64,
    pub clock: u64,
    pub rnd: u64,
    pub env: u64,
    pub dec: *const u64,
    pub ndec: u64,
    pub weak_inv: u32,
    pub reuse: u64,
    pub effects: u64,
}
#[repr(C)]
pub struct Stat {
    pub steps: u64,
    pub switches: u64,
    pub hot: u64,
    pub spurious: u64,
    pub futex_waits: u64,
    pub futex_wakes: u64,
    pub threads: u64,
    pub clock_reads: u64,
    pub random_reads: u64,
    pub env_reads: u64,
    pub yields: u64,
    pub sleeps: u64,
    pub timer_jumps: u64,
    pub awaits: u64,
    pub stale: u64,
    pub loads_with_choice: u64,
    pub checked: u64,
    pub race: [u64; 6],
    pub ndec: u64,
    pub sched_hash: u64,
    pub race_pc: [u64; 2],
    pub outcome: i32,
    pub effect_pc: u64,
    pub effect: [u8; 256],
    pub dec: [u64; 131072],
}
extern "C" {
    pub fn sim_start(c: *const Cfg, s: *mut Stat);
    pub fn sim_stop();
    pub fn sim_np_get() -> i32;
    pub fn sim_np_set(v: i32);
    pub fn sim_yield();
    pub fn sim_clock(d: i64);
    pub fn sim_env(seed: u64);
    pub fn sim_me() -> i32;
    pub fn sim_await(t: i32);
    pub fn sim_hand(slot: i32, put: i32);
    pub fn sim_last() -> i32;
    pub fn sim_steps() -> u64;
    pub fn sim_live() -> u64;
    pub fn sim_left() -> i32;
    fn sim_alloc(n: usize, al: usize) -> *mut u8;
    fn sim_free(p: *mut u8, n: usize, al: usize);
}
pub struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        sim_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sim_free(p, l.size(), l.align())
    }
}

/// Harness code that other threads must not interleave with.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    struct G(i32);
    impl Drop for G {
        fn drop(&mut self) {
            unsafe { sim_np_set(self.0) }
        }
    }
    let _g = unsafe {
        let g = G(sim_np_get());
        sim_np_set(g.0 + 1);
        g
    };
    f()
}
/// Code under test, called from harness code.
pub fn open<R>(f: impl FnOnce() -> R) -> R {
    struct G(i32);
    impl Drop for G {
        fn drop(&mut self) {
            unsafe { sim_np_set(self.0) }
        }
    }
    let _g = unsafe {
        let g = G(sim_np_get());
        sim_np_set(0);
        g
    };
    f()
}
