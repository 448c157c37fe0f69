//! The simulator core: per-run state, fault counters, trace, and the client scheduler.
//!
//! Clients are stackful coroutines on one OS thread. Every call out of the library into
//! something a user or the operating system provides is a yield point; the schedule tape
//! decides who runs and for how many yield points.

use crate::tape::Tape;
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;

pub struct SimState {
    pub sched: Tape,
    pub hash: u64,
    pub steps: u64,
    pub step_cap: u64,
    /// Whether exhausting the step budget is a violation, or the plan may just be that big.
    pub bounded: bool,
    pub switches: u64,
    pub client: usize,
    quantum: u32,
    pub trace: Option<Vec<String>>,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub state_hash: u64,
    pub violation: Option<Violation>,
}

#[derive(Clone, Debug)]
pub struct Violation { pub class: String, pub detail: String }

pub type Check = Result<(), Violation>;

pub fn violation<T>(class: &str, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { class: class.into(), detail: detail.into() })
}

/// Panic payload used when the step budget of a run is exhausted.
pub struct StepCap;

thread_local! {
    static SIM: RefCell<Option<SimState>> = const { RefCell::new(None) };
    static YIELDER: Cell<*const Yielder<(), ()>> = const { Cell::new(std::ptr::null()) };
    static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(Vec::new()) };
}

pub fn begin(sched: Tape, trace: bool) {
    SIM.with(|s| *s.borrow_mut() = Some(SimState {
        sched, hash: 0xcbf2_9ce4_8422_2325, steps: 0, step_cap: 4_000_000, bounded: true, switches: 0, client: 0,
        quantum: u32::MAX, trace: if trace { Some(Vec::new()) } else { None },
        faults: BTreeMap::new(), probes: BTreeMap::new(), state_hash: 0, violation: None,
    }));
    YIELDER.with(|y| y.set(std::ptr::null()));
}

pub fn end() -> SimState { SIM.with(|s| s.borrow_mut().take()).expect("sim running") }

pub fn with<R>(f: impl FnOnce(&mut SimState) -> R) -> R {
    SIM.with(|s| f(s.borrow_mut().as_mut().expect("sim running")))
}

pub fn active() -> bool {
    SIM.try_with(|s| s.try_borrow().map(|s| s.is_some()).unwrap_or(false)).unwrap_or(false)
}

pub fn fault(kind: &'static str) { with(|s| *s.faults.entry(kind).or_insert(0) += 1) }
pub fn fault_n(kind: &'static str, n: u64) { with(|s| *s.faults.entry(kind).or_insert(0) += n) }
pub fn probe(kind: &'static str) { with(|s| *s.probes.entry(kind).or_insert(0) += 1) }

pub fn trace(f: impl FnOnce() -> String) {
    with(|s| if s.trace.is_some() {
        let line = format!("[{}] client {}: {}", s.steps, s.client, f());
        let t = s.trace.as_mut().unwrap();
        if t.len() < 400 { t.push(line) }
    })
}

pub fn mix(h: u64, v: u64) -> u64 {
    let mut x = h ^ v.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x ^= x >> 32;
    x = x.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    x ^ (x >> 29)
}

pub fn hash_bytes(mut h: u64, b: &[u8]) -> u64 {
    for c in b.chunks(8) {
        let mut v = [0u8; 8];
        v[..c.len()].copy_from_slice(c);
        h = mix(h, u64::from_le_bytes(v) ^ c.len() as u64);
    }
    h
}

/// Folds an observed system state into the run's state hash.
pub fn observe(b: &[u8]) { with(|s| s.state_hash = hash_bytes(s.state_hash, b)) }

pub fn set_violation(v: Violation) {
    with(|s| if s.violation.is_none() { s.violation = Some(v) })
}

/// A point where control leaves the library: the scheduler may run someone else here.
pub fn yield_point(kind: &'static str, detail: u64) {
    let suspend = with(|s| {
        s.steps += 1;
        s.hash = mix(s.hash, mix(s.client as u64, hash_bytes(detail, kind.as_bytes())));
        if s.steps == s.step_cap {
            None
        } else if s.quantum <= 1 {
            Some(true)
        } else {
            if s.quantum != u32::MAX { s.quantum -= 1; }
            Some(false)
        }
    });
    match suspend {
        None => std::panic::panic_any(StepCap),
        Some(true) => {
            let y = YIELDER.with(|y| y.get());
            if !y.is_null() {
                unsafe { (*y).suspend(()); }
                YIELDER.with(|c| c.set(y));
            }
        }
        Some(false) => (),
    }
}

/// A new phase of the run: its calls out of the library are bounded by `n` from here on.
pub fn allow(n: u64) { with(|s| s.step_cap = s.steps + n) }

/// Steps that are not worth a switch of their own (long stall bursts, bounded by the plan).
pub fn tick(n: u64) {
    with(|s| { s.steps += n; s.step_cap += n; });
}

const QUANTA: [u32; 9] = [u32::MAX, 1, 1, 2, 3, 5, 8, 20, 60];

/// Runs all clients to completion under the schedule tape.
pub fn run_clients(clients: Vec<Box<dyn FnOnce()>>) {
    if clients.len() == 1 {
        for c in clients { c(); }
        return;
    }
    let mut live: Vec<(usize, Coroutine<(), (), (), DefaultStack>)> = clients
        .into_iter()
        .enumerate()
        .map(|(i, f)| {
            let stack = STACKS
                .with(|s| s.borrow_mut().pop())
                .unwrap_or_else(|| DefaultStack::new(4 << 20).expect("coroutine stack"));
            (i, Coroutine::with_stack(stack, move |y: &Yielder<(), ()>, ()| {
                YIELDER.with(|c| c.set(y as *const _));
                f();
            }))
        })
        .collect();
    while !live.is_empty() {
        let (pick, quantum) = with(|s| {
            if live.len() == 1 { return (0, u32::MAX); }
            let p = s.sched.usize(live.len());
            let q = QUANTA[s.sched.weighted(&[1, 3, 3, 3, 2, 2, 2, 1, 1])];
            (p, q)
        });
        let id = live[pick].0;
        with(|s| {
            if s.client != id { s.switches += 1; s.client = id; }
            s.quantum = quantum;
        });
        YIELDER.with(|c| c.set(std::ptr::null()));
        // The coroutine sets YIELDER itself after it is resumed.
        match live[pick].1.resume(()) {
            CoroutineResult::Yield(()) => (),
            CoroutineResult::Return(()) => {
                let (_, co) = live.remove(pick);
                let stack = co.into_stack();
                STACKS.with(|s| s.borrow_mut().push(stack));
            }
        }
    }
    YIELDER.with(|c| c.set(std::ptr::null()));
    with(|s| { s.client = 0; s.quantum = u32::MAX; });
}
