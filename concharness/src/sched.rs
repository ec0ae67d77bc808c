//! Runs threads one at a time, in an order that is given, switching at the events of the locks.
use std::cell::RefCell;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

use rand::rngs::StdRng;
use rand::Rng;
use vortex::verif_hooks::LockEvent;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Th {
    Running,
    Ready,
    Waits(usize),
    Done,
}
struct State {
    th: Vec<Th>,
    turn: Option<usize>,
}
pub struct Sched {
    st: Mutex<State>,
    cv: Condvar,
}

enum Mode {
    Free,
    /// the thread's number, under the scheduler
    Ruled(Arc<Sched>, usize),
    /// runs on its own, delayed at random
    Noisy(StdRng, f64),
}
thread_local! {
    static MODE: RefCell<Mode> = const { RefCell::new(Mode::Free) };
}
pub fn noisy(rng: StdRng, p: f64) {
    MODE.with(|m| *m.borrow_mut() = Mode::Noisy(rng, p));
}

pub fn hook(e: LockEvent, lock: usize) -> bool {
    let ruled = MODE.with(|m| match &mut *m.borrow_mut() {
        Mode::Free => None,
        Mode::Ruled(s, t) => Some((s.clone(), *t)),
        Mode::Noisy(rng, p) => {
            let p = *p;
            if p > 0.0 && rng.gen_bool(p) {
                match rng.gen_range(0..3) {
                    0 => std::thread::yield_now(),
                    1 => std::thread::sleep(Duration::from_micros(rng.gen_range(1..40))),
                    _ => (0..rng.gen_range(1..2000)).for_each(|_| std::hint::spin_loop()),
                }
            }
            None
        }
    });
    let Some((s, t)) = ruled else { return false };
    match e {
        LockEvent::Try | LockEvent::Held => s.pause(t, Th::Ready),
        LockEvent::Blocked => s.pause(t, Th::Waits(lock)),
        LockEvent::Released => s.released(lock),
    }
    true
}

impl Sched {
    fn new(n: usize) -> Arc<Sched> {
        Arc::new(Sched { st: Mutex::new(State { th: vec![Th::Running; n], turn: None }), cv: Condvar::new() })
    }
    fn pause(&self, t: usize, why: Th) {
        let mut st = self.st.lock().unwrap();
        st.th[t] = why;
        if st.turn == Some(t) {
            st.turn = None;
        }
        self.cv.notify_all();
        while st.turn != Some(t) {
            st = self.cv.wait(st).unwrap();
        }
        st.th[t] = Th::Running;
    }
    fn released(&self, lock: usize) {
        let mut st = self.st.lock().unwrap();
        for x in st.th.iter_mut() {
            if *x == Th::Waits(lock) {
                *x = Th::Ready;
            }
        }
        self.cv.notify_all();
    }
    fn finished(&self, t: usize) {
        let mut st = self.st.lock().unwrap();
        st.th[t] = Th::Done;
        if st.turn == Some(t) {
            st.turn = None;
        }
        self.cv.notify_all();
    }
}

/// a scheduling point that is no lock event
pub fn point() {
    hook(LockEvent::Try, 0);
}

/// Run the threads; `next` picks one of those that can go on.  Says whether all of them ended.
pub fn run(bodies: Vec<Box<dyn FnOnce() + Send>>, mut next: impl FnMut(&[usize]) -> usize) -> bool {
    let n = bodies.len();
    let s = Sched::new(n);
    let hs: Vec<_> = bodies
        .into_iter()
        .enumerate()
        .map(|(t, b)| {
            let s = s.clone();
            std::thread::spawn(move || {
                MODE.with(|m| *m.borrow_mut() = Mode::Ruled(s.clone(), t));
                // every body begins with a point
                b();
                MODE.with(|m| *m.borrow_mut() = Mode::Free);
                s.finished(t);
            })
        })
        .collect();
    let mut idle = Instant::now();
    let mut st = s.st.lock().unwrap();
    // wait for all of them to come to their first point
    while st.th.iter().any(|x| *x == Th::Running) && idle.elapsed() < Duration::from_secs(10) {
        st = s.cv.wait_timeout(st, Duration::from_millis(500)).unwrap().0;
    }
    loop {
        if st.th.iter().all(|x| *x == Th::Done) {
            break;
        }
        let on: Vec<usize> = (0..n).filter(|t| st.th[*t] == Th::Ready).collect();
        if on.is_empty() {
            // threads that run, without the turn, may be held up by something that is no lock of ours
            if !st.th.iter().any(|x| *x == Th::Running) || idle.elapsed() > Duration::from_secs(10) {
                return false;
            }
            st = s.cv.wait_timeout(st, Duration::from_millis(100)).unwrap().0;
            continue;
        }
        let t = next(&on);
        st.turn = Some(t);
        s.cv.notify_all();
        let t0 = Instant::now();
        while st.turn.is_some() {
            st = s.cv.wait_timeout(st, Duration::from_millis(200)).unwrap().0;
            if st.turn.is_some() && t0.elapsed() > Duration::from_millis(800) {
                if st.th[t] == Th::Ready {
                    continue; // has not woken up yet
                }
                st.turn = None; // let the others go on meanwhile
            }
        }
        idle = Instant::now();
    }
    drop(st);
    hs.into_iter().for_each(|h| {
        let _ = h.join();
    });
    true
}
