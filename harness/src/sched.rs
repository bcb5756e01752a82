//! A cooperative scheduler: of the registered threads exactly one runs at a time, and at every
//! scheduling point (lock acquisition, lock release, file write, inside serializer callbacks) a
//! strategy decides who runs next. Locks are parking_lot mutexes of the instrumented copy.
use crate::util::Rng;
use std::cell::Cell;
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    Blocked(usize),
    /// took no scheduling point for a long time while running: blocked outside our control
    Lost,
    Done,
}

#[derive(Clone)]
pub enum Strategy {
    /// uniformly random choice at each point
    Random(Rng),
    /// run the current thread on, switching with the given chance (per 16)
    Sticky(Rng, u64),
    /// follow the list of choices (index among runnable threads, in thread order); then 0
    Choices(Vec<usize>),
    /// follow the list of thread ids; skip entries that are not runnable; then lowest id
    Threads(Vec<usize>),
}

struct S {
    st: Vec<St>,
    cur: usize,
    strategy: Strategy,
    pos: usize,
    /// (number of options, chosen option, option index of the running thread) per decision
    log: Vec<(usize, usize, Option<usize>)>,
    deadlock: bool,
    ticks: u64,
    started: bool,
}

pub struct Sched {
    m: Mutex<S>,
    cv: Condvar,
}

static CURRENT: Mutex<Option<Arc<Sched>>> = Mutex::new(None);
thread_local! { static ME: Cell<Option<usize>> = const { Cell::new(None) }; }

fn cur() -> Option<(usize, Arc<Sched>)> {
    let me = ME.with(|m| m.get())?;
    let s = CURRENT.lock().unwrap_or_else(|e| e.into_inner()).clone()?;
    Some((me, s))
}

pub fn install() {
    parking_lot::vp_hook::install(
        |_addr| {
            if ME.with(|m| m.get()).is_none() {
                return false;
            }
            yield_point();
            true
        },
        |addr| {
            if let Some((me, s)) = cur() {
                s.switch(me, St::Blocked(addr));
            }
        },
        |addr| {
            if let Some((me, s)) = cur() {
                s.release(addr);
                s.switch(me, St::Ready);
            } else {
                // an unregistered thread released a lock: nobody registered can wait for it
            }
        },
    );
}

pub fn yield_point() {
    if let Some((me, s)) = cur() {
        s.switch(me, St::Ready);
    }
}

impl Sched {
    fn lock(&self) -> MutexGuard<'_, S> {
        self.m.lock().unwrap_or_else(|e| e.into_inner())
    }

    fn choose(s: &mut S, me: Option<usize>) -> bool {
        let opts: Vec<usize> = (0..s.st.len()).filter(|&i| s.st[i] == St::Ready).collect();
        if opts.is_empty() {
            return false;
        }
        let mine = me.and_then(|m| opts.iter().position(|&o| o == m));
        let k = if opts.len() == 1 {
            0
        } else {
            let n = opts.len();
            let k = match &mut s.strategy {
                Strategy::Random(r) => r.below(n as u64) as usize,
                Strategy::Sticky(r, c) => match mine {
                    Some(m) if !r.chance(*c, 16) => m,
                    _ => r.below(n as u64) as usize,
                },
                Strategy::Choices(v) => {
                    let k = v.get(s.pos).copied().unwrap_or(mine.unwrap_or(0));
                    s.pos += 1;
                    k.min(n - 1)
                }
                Strategy::Threads(v) => loop {
                    match v.get(s.pos) {
                        None => break mine.unwrap_or(0),
                        Some(t) => {
                            s.pos += 1;
                            if let Some(k) = opts.iter().position(|o| o == t) {
                                break k;
                            }
                        }
                    }
                },
            };
            s.log.push((n, k, mine));
            k
        };
        s.cur = opts[k];
        s.ticks += 1;
        true
    }

    fn release(&self, addr: usize) {
        let mut s = self.lock();
        for st in s.st.iter_mut() {
            if *st == St::Blocked(addr) {
                *st = St::Ready;
            }
        }
    }

    /// Called by thread `me`: record its new state, pick the next thread, wait for the turn.
    fn switch(&self, me: usize, st: St) {
        let mut s = self.lock();
        let had_turn = s.cur == me;
        s.st[me] = st;
        if had_turn || st != St::Ready {
            if had_turn {
                self.pass_on(&mut s, Some(me));
            }
        }
        self.wait_turn(s, me);
    }

    fn pass_on(&self, s: &mut S, me: Option<usize>) {
        if !Self::choose(s, me) {
            s.cur = usize::MAX;
            if !s.st.iter().any(|x| *x == St::Lost) && s.st.iter().any(|x| matches!(x, St::Blocked(_))) {
                s.deadlock = true;
            }
        }
        self.cv.notify_all();
    }

    fn wait_turn(&self, mut s: MutexGuard<'_, S>, me: usize) {
        let mut last = (s.ticks, Instant::now());
        loop {
            if s.cur == me && s.st[me] == St::Ready {
                return;
            }
            if s.cur == usize::MAX && !s.deadlock && s.st[me] == St::Ready {
                // everyone else was lost or done; take over
                self.pass_on(&mut s, None);
                continue;
            }
            let (g, _) = self.cv.wait_timeout(s, Duration::from_millis(50)).unwrap_or_else(|e| e.into_inner());
            s = g;
            if s.deadlock {
                continue; // parked for good; the controller abandons this run
            }
            if s.ticks != last.0 {
                last = (s.ticks, Instant::now());
            } else if last.1.elapsed() > Duration::from_millis(1500) && s.cur != usize::MAX && s.cur != me {
                // The running thread makes no progress: it is blocked on something we do
                // not control. Let the others run.
                let c = s.cur;
                s.st[c] = St::Lost;
                self.pass_on(&mut s, None);
                last = (s.ticks, Instant::now());
            }
        }
    }
}

pub struct RunResult {
    pub log: Vec<(usize, usize, Option<usize>)>,
    pub stuck: bool,
}

/// Run the given thread bodies under the scheduler. `stuck` is set if they cannot all finish.
pub fn run(bodies: Vec<Box<dyn FnOnce() + Send>>, strategy: Strategy) -> RunResult {
    let n = bodies.len();
    let sched = Arc::new(Sched {
        m: Mutex::new(S {
            st: vec![St::Ready; n],
            cur: usize::MAX,
            strategy,
            pos: 0,
            log: vec![],
            deadlock: false,
            ticks: 0,
            started: false,
        }),
        cv: Condvar::new(),
    });
    *CURRENT.lock().unwrap_or_else(|e| e.into_inner()) = Some(sched.clone());
    let mut handles = vec![];
    for (i, b) in bodies.into_iter().enumerate() {
        let sc = sched.clone();
        handles.push(
            std::thread::Builder::new()
                .stack_size(512 * 1024)
                .spawn(move || {
                    {
                        let mut s = sc.lock();
                        while !s.started {
                            s = sc.cv.wait(s).unwrap_or_else(|e| e.into_inner());
                        }
                        ME.with(|m| m.set(Some(i)));
                        sc.wait_turn(s, i);
                    }
                    b();
                    ME.with(|m| m.set(None));
                    let mut s = sc.lock();
                    s.st[i] = St::Done;
                    if s.cur == i || s.cur == usize::MAX {
                        sc.pass_on(&mut s, None);
                    }
                    sc.cv.notify_all();
                })
                .unwrap(),
        );
    }
    let mut s = sched.lock();
    s.started = true;
    Sched::choose(&mut s, None);
    sched.cv.notify_all();
    let t0 = Instant::now();
    let mut last = (0u64, Instant::now());
    let stuck = loop {
        if s.st.iter().all(|x| *x == St::Done) {
            break false;
        }
        if s.deadlock {
            break true;
        }
        if s.ticks != last.0 {
            last = (s.ticks, Instant::now());
        }
        // no progress for long, or never ending: threads blocked on each other outside our control
        if last.1.elapsed() > Duration::from_secs(30) || t0.elapsed() > Duration::from_secs(120) {
            break true;
        }
        let (g, _) = sched.cv.wait_timeout(s, Duration::from_millis(50)).unwrap_or_else(|e| e.into_inner());
        s = g;
    };
    let log = s.log.clone();
    drop(s);
    if !stuck {
        for h in handles {
            let _ = h.join();
        }
    }
    *CURRENT.lock().unwrap_or_else(|e| e.into_inner()) = None;
    RunResult { log, stuck }
}

/// Depth-first enumeration of schedules with at most `preempt` preemptive switches.
pub struct Dfs {
    next: Option<Vec<usize>>,
    preempt: usize,
}
impl Dfs {
    pub fn new(preempt: usize) -> Dfs {
        Dfs { next: Some(vec![]), preempt }
    }
    pub fn next(&self) -> Option<Strategy> {
        self.next.clone().map(Strategy::Choices)
    }
    /// Compute the next prefix from the decisions of the last run.
    pub fn report(&mut self, log: &[(usize, usize, Option<usize>)]) {
        // Options at a decision are explored in the order: continue running thread first
        // (non-preemptive), then the others by index.
        let order = |n: usize, mine: Option<usize>| -> Vec<usize> {
            let mut v: Vec<usize> = (0..n).collect();
            if let Some(m) = mine {
                v.retain(|&x| x != m);
                v.insert(0, m);
            }
            v
        };
        let cost = |d: &(usize, usize, Option<usize>), k: usize| (d.2.is_some() && d.2 != Some(k)) as usize;
        let mut i = log.len();
        while i > 0 {
            i -= 1;
            let used: usize = log[..i].iter().map(|d| cost(d, d.1)).sum();
            let ord = order(log[i].0, log[i].2);
            let at = ord.iter().position(|&x| x == log[i].1).unwrap();
            for &k in &ord[at + 1..] {
                if used + cost(&log[i], k) <= self.preempt {
                    let mut p: Vec<usize> = log[..i].iter().map(|d| d.1).collect();
                    p.push(k);
                    self.next = Some(p);
                    return;
                }
            }
        }
        self.next = None;
    }
}
