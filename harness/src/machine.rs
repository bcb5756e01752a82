//! A processor and kernel with hardware performance counters, as far as user space sees them. The
//! process's `syscall` is interposed to answer perf_event_open with a page of memory; `rdpmc` and
//! (where the processor can make it fault) `cpuid` raise signals here, and are executed by handlers.
use crate::util::Rng;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Mutex, MutexGuard, TryLockError};

pub const KINDS: [&str; 7] = ["instructions", "rcf", "r2c", "r1cb", "r420", "r825", "other"];
const OTHER: usize = 6;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum How {
    Good,
    /// perf_event_open fails
    Deny(i32),
    /// what it gives cannot be mapped
    NoMap,
    /// no reading from user space; the capabilities
    NoCaps(u64),
    /// there is no register for it
    NoIndex,
    Width(u16),
    /// at one moment turns from a counter of 40 bits into a good one, with another register
    Becomes,
    /// the same the other way
    Fades,
}
/// A register: number, kind, what it shows when nothing has been counted.
struct Reg {
    number: u32,
    kind: usize,
    first: u64,
}
struct Page {
    at: usize,
    later: [u32; 2], // index and width to come
}
#[derive(Default)]
pub struct Machine {
    vendor: [u8; 12],
    signature: u32,
    how: Vec<How>,
    pub cnt: [u64; 7],
    tick: [u64; 7],
    regs: Vec<Reg>,
    maps: Vec<usize>,
    first: u64,
    rng: Option<Rng>,
    page: Option<Page>,
    steps: u64,
    pub stop: u64,
    pub complaint: Option<String>,
}
static M: Mutex<Option<Machine>> = Mutex::new(None);
static ON: AtomicBool = AtomicBool::new(false);
static FAULTS: AtomicBool = AtomicBool::new(false);
const PAGE: usize = 4096;
const MASK: u64 = (1 << 48) - 1;
const ARCH_CPUID: libc::c_long = 0x1012;

fn lk() -> MutexGuard<'static, Option<Machine>> {
    match M.try_lock() {
        Ok(g) => g,
        Err(TryLockError::Poisoned(p)) => p.into_inner(),
        Err(TryLockError::WouldBlock) => {
            eprintln!("machine: used while in use");
            std::process::abort()
        }
    }
}
fn cpuid_faults(yes: bool) -> bool {
    unsafe { raw_syscall(libc::SYS_arch_prctl, ARCH_CPUID, !yes as i64, 0, 0, 0, 0) == 0 }
}

/// Takes over the signals; whether `rdpmc` can be executed here, and whether `cpuid` can.
pub fn install() -> (bool, bool) {
    unsafe {
        for (s, h) in [(libc::SIGSEGV, on_fault as *const () as usize), (libc::SIGTRAP, on_trap as *const () as usize)] {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = h;
            a.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
            libc::sigaction(s, &a, std::ptr::null_mut());
        }
    }
    FAULTS.store(cpuid_faults(true), Ordering::SeqCst);
    cpuid_faults(false);
    let cpuid = FAULTS.load(Ordering::SeqCst);
    // a register that shows a value no real one would
    let mut m = Machine { how: vec![How::Good; 7], ..Default::default() };
    m.regs.push(Reg { number: 0, kind: 0, first: 0x1234_5678_9abc });
    *lk() = Some(m);
    ON.store(true, Ordering::SeqCst);
    let (lo, hi): (u32, u32);
    unsafe { std::arch::asm!("rdpmc", in("ecx") 0, lateout("eax") lo, lateout("edx") hi, options(nostack)) };
    ON.store(false, Ordering::SeqCst);
    *lk() = None;
    (lo == 0x5678_9abc && hi == 0x1234, cpuid)
}
/// The processor there really is: vendor and signature.
pub fn real_cpu() -> (String, u32) {
    use std::arch::x86_64::__cpuid;
    #[allow(unused_unsafe)]
    let (a, b) = unsafe { (__cpuid(0), __cpuid(1)) };
    let v: Vec<u8> = [a.ebx, a.edx, a.ecx].iter().flat_map(|x| x.to_le_bytes()).collect();
    (String::from_utf8_lossy(&v).into_owned(), b.eax)
}

/// Puts a machine in place. `tick`: what each reading of a register adds to the counts.
pub fn power_on(vendor: &str, signature: u32, how: Vec<How>, tick: [u64; 7], first: u64, stop: u64, r: &mut Rng) {
    let mut m = Machine { signature, how, tick, first, stop, ..Default::default() };
    m.vendor.copy_from_slice(&vendor.as_bytes()[..12]);
    m.rng = Some(Rng::new(r.next()));
    *lk() = Some(m);
    ON.store(true, Ordering::SeqCst);
    if FAULTS.load(Ordering::SeqCst) {
        cpuid_faults(true);
    }
}
pub fn power_off() -> Machine {
    if FAULTS.load(Ordering::SeqCst) {
        cpuid_faults(false);
    }
    ON.store(false, Ordering::SeqCst);
    let m = lk().take().unwrap();
    for p in &m.maps {
        unsafe { libc::munmap(*p as *mut libc::c_void, PAGE) };
    }
    m
}
pub fn counts() -> [u64; 7] {
    lk().as_ref().unwrap().cnt
}
pub fn advance(by: [u64; 7]) {
    let mut g = lk();
    let m = g.as_mut().unwrap();
    for k in 0..7 {
        m.cnt[k] += by[k];
    }
}
/// Single steps taken since the page to watch was handed out.
pub fn steps() -> u64 {
    lk().as_ref().unwrap().steps
}

unsafe fn field<T: Copy>(page: usize, at: usize, v: T) {
    std::ptr::write_volatile((page + at) as *mut T, v);
}
/// The kernel changes the page.
unsafe fn update(p: &Page) {
    let lock = (p.at + 8) as *mut u32;
    std::ptr::write_volatile(lock, std::ptr::read_volatile(lock).wrapping_add(2));
    field(p.at, 12, p.later[0]);
    field(p.at, 48, p.later[1] as u16);
}

/// The kernel opens an event.
unsafe fn open_event(m: &mut Machine, attr: *const u8, pid: i64, cpu: i64) -> Result<(i32, bool), i32> {
    let word = |at: usize| std::ptr::read_unaligned(attr.add(at) as *const u64);
    let (ty, config, flags) = (word(0) as u32, word(8), word(40));
    let mut kind = match (ty, config) {
        (0, 1) => 0,
        (4, 0xcf) => 1,
        (4, 0x2c) => 2,
        (4, 0x1cb) => 3,
        (4, 0x420) => 4,
        (4, 0x825) => 5,
        _ => OTHER,
    };
    if pid as i32 != 0 || cpu as i32 != -1 || flags & 0b0111_0001 != 0b0110_0000 {
        // stopped; or of user space not at all; or of kernel and hypervisor too; or somebody else's
        kind = OTHER;
    }
    if flags & 2 != 0 {
        return Err(libc::EINVAL); // inherited ones cannot be mapped
    }
    let how = m.how[kind];
    if let How::Deny(e) = how {
        return Err(e);
    }
    let fd = if how == How::NoMap { libc::eventfd(0, libc::EFD_CLOEXEC) } else { libc::memfd_create(c"perf".as_ptr(), libc::MFD_CLOEXEC) };
    assert!(fd >= 0);
    if how == How::NoMap {
        return Ok((fd, false));
    }
    assert!(libc::ftruncate(fd, PAGE as i64) == 0);
    let p = libc::mmap(std::ptr::null_mut(), PAGE, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0) as usize;
    assert!(p != usize::MAX);
    m.maps.push(p);
    let r = m.rng.as_mut().unwrap();
    let mut fresh = |m: &mut Vec<Reg>, kind: usize, first: u64| loop {
        let number = if kind == 0 && r.chance(1, 2) { 0x4000_0000 } else { r.below(8) as u32 };
        if m.iter().all(|x| x.number != number) {
            m.push(Reg { number, kind, first });
            return number + 1;
        }
    };
    let first = m.first;
    let index = fresh(&mut m.regs, kind, first);
    let other = fresh(&mut m.regs, OTHER, 0x1234_5678);
    field(p, 8, 2 * (kind as u32 + 5));
    field(p, 12, if how == How::NoIndex { 0 } else if how == How::Becomes { other } else { index });
    // what the kernel counted before in software: of no use to who reads a register only
    field(p, 16, 0u64.wrapping_sub(first));
    field(p, 40, if let How::NoCaps(c) = how { c } else { 0b11110u64 });
    field(p, 48, match how {
        How::Width(w) => w,
        How::Becomes => 40,
        _ => 48u16,
    });
    let step = match how {
        How::Becomes => Some([index, 48]),
        How::Fades => Some([other, 40]),
        _ => None,
    };
    if let Some(later) = step {
        m.page = Some(Page { at: p, later });
        m.steps = 0;
    }
    Ok((fd, step.is_some()))
}

pub unsafe fn raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn result(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n != libc::SYS_perf_event_open || !ON.load(Ordering::SeqCst) {
        return result(raw_syscall(n, a, b, c, d, e, f));
    }
    let r = {
        let mut g = lk();
        open_event(g.as_mut().unwrap(), a as *const u8, b, c)
    };
    match r {
        Err(e) => result(-(e as i64)),
        Ok((fd, step)) => {
            if step {
                std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
            }
            fd as i64
        }
    }
}

const TF: i64 = 0x100;
unsafe extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, c: *mut libc::c_void) {
    let u = &mut *(c as *mut libc::ucontext_t);
    let regs = &mut u.uc_mcontext.gregs;
    if !ON.load(Ordering::SeqCst) {
        regs[libc::REG_EFL as usize] &= !TF;
        return;
    }
    let Ok(mut g) = M.try_lock() else { return };
    let Some(m) = g.as_mut() else { return };
    m.steps += 1;
    if m.steps == m.stop {
        if let Some(p) = &m.page {
            update(p);
        }
        regs[libc::REG_EFL as usize] &= !TF;
    }
}
unsafe extern "C" fn on_fault(s: i32, _: *mut libc::siginfo_t, c: *mut libc::c_void) {
    let u = &mut *(c as *mut libc::ucontext_t);
    let regs = &mut u.uc_mcontext.gregs;
    let at = regs[libc::REG_RIP as usize] as *const u8;
    let on = ON.load(Ordering::SeqCst);
    // an address that cannot be read is no instruction of ours; reading it ends the process
    let op = if on { [*at, *at.add(1)] } else { [0, 0] };
    let (a, b, c, d) = (libc::REG_RAX as usize, libc::REG_RBX as usize, libc::REG_RCX as usize, libc::REG_RDX as usize);
    if op == [0x0f, 0x33] {
        let mut g = lk();
        let m = g.as_mut().unwrap();
        let n = regs[c] as u32;
        let v = match m.regs.iter().find(|x| x.number == n) {
            Some(x) => x.first.wrapping_add(m.cnt[x.kind]) & MASK,
            None => m.rng.as_mut().unwrap().next() & MASK,
        };
        regs[a] = (v & 0xffff_ffff) as i64;
        regs[d] = (v >> 32) as i64;
        for k in 0..7 {
            m.cnt[k] += m.tick[k];
        }
        regs[libc::REG_EFL as usize] &= !TF;
    } else if op == [0x0f, 0xa2] {
        cpuid_faults(false);
        let (leaf, sub) = (regs[a] as u32, regs[c] as u32);
        #[allow(unused_unsafe)]
        let mut r = unsafe { std::arch::x86_64::__cpuid_count(leaf, sub) };
        cpuid_faults(true);
        let g = lk();
        let m = g.as_ref().unwrap();
        let part = |k: usize| u32::from_le_bytes(m.vendor[k..k + 4].try_into().unwrap());
        match leaf {
            0 => (r.ebx, r.edx, r.ecx) = (part(0), part(4), part(8)),
            1 => r.eax = m.signature,
            _ => {}
        }
        (regs[a], regs[b], regs[c], regs[d]) = (r.eax as i64, r.ebx as i64, r.ecx as i64, r.edx as i64);
    } else {
        libc::signal(s, libc::SIG_DFL);
        return;
    }
    regs[libc::REG_RIP as usize] += 2;
}
/// Ends single stepping, if it is still on.
pub fn no_steps() {
    unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") };
}
