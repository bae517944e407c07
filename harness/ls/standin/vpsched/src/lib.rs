//! A controlled scheduler. Every task is a thread of its own, of which one runs at a time; before every
//! operation that other tasks can see, the schedule decides who continues. A schedule is a list of
//! choices; the default at every point is to let the running task continue, and else the next one in turn.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, Wake, Waker};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Wait {
    Res(u64),
    Until(u64),
    /// As Until, but it neither keeps the world from settling nor fires without a permitted tick.
    Tick(u64),
    /// Goes on at any time, by default when nothing else can happen.
    Late,
}
#[derive(Clone, Debug, PartialEq)]
enum S {
    Ready,
    Waiting(Vec<Wait>),
    Settling,
    Done,
}
struct Task {
    s: S,
    cv: Arc<Condvar>,
    aborted: bool,
    can_abort: bool,
    name: &'static str,
}
struct St {
    tasks: Vec<Task>,
    cur: usize,
    script: Vec<(usize, u8)>,
    next: usize,
    point: usize,
    /// (point, number of options) of every point with a choice
    trail: Vec<(usize, u8)>,
    clock: u64,
    ticks: u32,
    res: u64,
    held: BTreeMap<u64, i64>,
    problems: Vec<String>,
    dead: bool,
    limit: usize,
    log: Vec<String>,
    logging: bool,
    seed: u64,
}
pub struct World {
    st: Mutex<St>,
    end: Condvar,
}
thread_local! {
    static ME: RefCell<Option<(Arc<World>, usize)>> = const { RefCell::new(None) };
    static WAITS: RefCell<Vec<Wait>> = const { RefCell::new(vec![]) };
}
/// Unwinds a task that is aborted or whose world has ended.
struct Stop;
fn stop() -> ! {
    std::panic::resume_unwind(Box::new(Stop))
}
pub struct Outcome {
    pub trail: Vec<(usize, u8)>,
    pub points: usize,
    pub problems: Vec<String>,
    pub log: Vec<String>,
}
fn me() -> Option<(Arc<World>, usize)> {
    ME.with(|m| m.borrow().clone())
}
pub fn inside() -> bool {
    ME.with(|m| m.borrow().is_some())
}
impl World {
    fn options(st: &St, me: usize) -> Vec<(usize, u64)> {
        let n = st.tasks.len();
        let mut v = vec![];
        for k in 0..n {
            let t = (me + k) % n;
            if st.tasks[t].s == S::Ready {
                v.push((t, st.clock));
            }
        }
        // time passes to the earliest deadline
        let mut first: Option<u64> = None;
        for t in &st.tasks {
            if let S::Waiting(w) = &t.s {
                for x in w {
                    if let Wait::Until(d) = x {
                        first = Some(first.map_or(*d, |f| f.min(*d)));
                    }
                }
            }
        }
        for k in 0..n {
            let t = (me + k) % n;
            if let S::Waiting(w) = &st.tasks[t].s {
                if first.is_some() && w.iter().any(|x| matches!(x, Wait::Until(d) if Some(*d) == first)) {
                    v.push((t, first.unwrap().max(st.clock)));
                } else if st.ticks > 0 && w.iter().any(|x| matches!(x, Wait::Tick(_))) || w.contains(&Wait::Late) {
                    v.push((t, st.clock));
                }
            }
        }
        v
    }
    /// Chooses who runs next; the caller has set its own state.
    fn pick(&self, st: &mut St, me: usize) {
        st.point += 1;
        if st.dead {
            return;
        }
        if st.point > st.limit {
            st.problems.push("the tasks do not come to rest".into());
            self.kill(st);
            return;
        }
        let o = Self::options(st, me);
        if o.is_empty() {
            if let Some(t) = st.tasks.iter().position(|t| t.s == S::Settling) {
                st.tasks[t].s = S::Ready;
                self.run(st, t);
                return;
            }
            if st.tasks.iter().all(|t| t.s == S::Done) {
                self.end.notify_all();
                return;
            }
            let who: Vec<String> =
                st.tasks.iter().enumerate().filter(|t| t.1.s != S::Done).map(|(i, t)| format!("{} {i}: {:?}", t.name, t.s)).collect();
            st.problems.push(format!("deadlock: {}", who.join(", ")));
            self.kill(st);
            return;
        }
        let mut k = 0;
        if o.len() > 1 {
            st.trail.push((st.point, o.len() as u8));
        }
        if let Some((p, c)) = st.script.get(st.next) {
            if *p == st.point {
                k = (*c as usize).min(o.len() - 1);
                st.next += 1;
            }
        }
        let (t, clock) = o[k];
        st.clock = clock;
        if let S::Waiting(w) = &st.tasks[t].s {
            if w.iter().any(|x| matches!(x, Wait::Tick(_))) {
                st.ticks -= 1;
            }
            // the waiting task looks at what it waits for again
            st.tasks[t].s = S::Ready;
        }
        self.run(st, t);
    }
    fn run(&self, st: &mut St, t: usize) {
        if st.logging && st.cur != t {
            let l = format!("-> {} {t} at point {}", st.tasks[t].name, st.point);
            st.log.push(l);
        }
        st.cur = t;
        st.tasks[t].cv.notify_all();
    }
    fn kill(&self, st: &mut St) {
        st.dead = true;
        for t in &st.tasks {
            t.cv.notify_all();
        }
        self.end.notify_all();
    }
    /// Waits for its turn.
    fn turn(self: &Arc<Self>, mut st: std::sync::MutexGuard<St>, i: usize) {
        let cv = st.tasks[i].cv.clone();
        while st.cur != i && !st.dead {
            st = cv.wait(st).unwrap();
        }
        let dead = st.dead;
        drop(st);
        if dead && !std::thread::panicking() {
            stop();
        }
    }
}
/// A visible operation follows: anyone may go first.
pub fn point(what: &str) {
    if std::thread::panicking() {
        return;
    }
    if let Some((w, i)) = me() {
        let mut st = w.st.lock().unwrap();
        if st.logging {
            let l = format!("{} {i}: {what}", st.tasks[i].name);
            st.log.push(l);
        }
        w.pick(&mut st, i);
        w.turn(st, i);
    }
}
pub fn note(what: impl FnOnce() -> String) {
    if let Some((w, i)) = me() {
        let mut st = w.st.lock().unwrap();
        if st.logging {
            let l = format!("{} {i}: {}", st.tasks[i].name, what());
            st.log.push(l);
        }
    }
}
/// Waits until one of the conditions may hold.
pub fn wait(v: Vec<Wait>) {
    if let Some((w, i)) = me() {
        let mut st = w.st.lock().unwrap();
        st.tasks[i].s = S::Waiting(v);
        w.pick(&mut st, i);
        w.turn(st, i);
    } else {
        panic!("nothing to wait for outside of a world");
    }
}
/// Waits until nothing else can happen.
pub fn settle() {
    let (w, i) = me().unwrap();
    let mut st = w.st.lock().unwrap();
    st.tasks[i].s = S::Settling;
    w.pick(&mut st, i);
    w.turn(st, i);
}
pub fn permit_tick() {
    let (w, _) = me().unwrap();
    w.st.lock().unwrap().ticks += 1;
}
pub fn wake(res: u64) {
    if let Some((w, _)) = me() {
        let mut st = w.st.lock().unwrap();
        for t in st.tasks.iter_mut() {
            if let S::Waiting(v) = &t.s {
                if v.contains(&Wait::Res(res)) {
                    t.s = S::Ready;
                }
            }
        }
    }
}
pub fn now() -> u64 {
    me().map_or(0, |(w, _)| w.st.lock().unwrap().clock)
}
pub fn resource() -> u64 {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);
    match me() {
        Some((w, _)) => {
            let mut st = w.st.lock().unwrap();
            st.res += 1;
            st.res
        }
        None => (1 << 40) + N.fetch_add(1, std::sync::atomic::Ordering::Relaxed),
    }
}
/// Takes a lock for reading (many) or writing (alone), waiting for it.
pub fn acquire(res: u64, write: bool, what: &str) {
    let Some((w, _)) = me() else { return };
    if std::thread::panicking() {
        return;
    }
    point(what);
    while !try_acquire_in(&w, res, write) {
        wait(vec![Wait::Res(res)]);
    }
}
fn try_acquire_in(w: &Arc<World>, res: u64, write: bool) -> bool {
    let mut st = w.st.lock().unwrap();
    let h = st.held.entry(res).or_insert(0);
    if write && *h == 0 {
        *h = -1;
        true
    } else if !write && *h >= 0 {
        *h += 1;
        true
    } else {
        false
    }
}
pub fn try_acquire(res: u64, write: bool) -> bool {
    match me() {
        Some((w, _)) => try_acquire_in(&w, res, write),
        None => true,
    }
}
pub fn release(res: u64) {
    if let Some((w, _)) = me() {
        {
            let mut st = w.st.lock().unwrap();
            let h = st.held.entry(res).or_insert(0);
            *h = match *h {
                -1 => 0,
                0 => 0,
                n => n - 1,
            };
        }
        wake(res);
    }
}
struct Nothing;
impl Wake for Nothing {
    fn wake(self: Arc<Self>) {}
}
/// A future that is not ready notes what it waits for.
pub fn pending(w: Wait) {
    WAITS.with(|v| v.borrow_mut().push(w));
}
/// Called around the suspension of a task at an await.
pub trait Suspend {
    fn leave(&self);
    fn back(&self);
}
/// Runs a future on this task.
pub fn block_on<F: Future>(f: F, around: Option<&dyn Suspend>) -> F::Output {
    let mut f = Box::pin(f);
    let waker = Waker::from(Arc::new(Nothing));
    let mut cx = Context::from_waker(&waker);
    loop {
        WAITS.with(|v| v.borrow_mut().clear());
        if let Poll::Ready(x) = Pin::as_mut(&mut f).poll(&mut cx) {
            return x;
        }
        if let Some((w, i)) = me() {
            let st = w.st.lock().unwrap();
            if st.tasks[i].aborted && st.tasks[i].can_abort {
                drop(st);
                stop();
            }
        }
        let v = WAITS.with(|v| std::mem::take(&mut *v.borrow_mut()));
        assert!(!v.is_empty(), "a future that waits for nothing");
        if let Some(a) = around {
            a.leave();
        }
        wait(v);
        if let Some((w, i)) = me() {
            let st = w.st.lock().unwrap();
            if st.tasks[i].aborted && st.tasks[i].can_abort {
                drop(st);
                stop();
            }
        }
        if let Some(a) = around {
            a.back();
        }
    }
}
/// Returns the number of the new task.
pub fn spawn(name: &'static str, can_abort: bool, f: impl FnOnce() + Send + 'static) -> usize {
    let (w, _) = me().expect("spawn outside of a world");
    let i = {
        let mut st = w.st.lock().unwrap();
        st.tasks.push(Task { s: S::Ready, cv: Arc::new(Condvar::new()), aborted: false, can_abort, name });
        st.tasks.len() - 1
    };
    start(w, i, f);
    i
}
fn start(w: Arc<World>, i: usize, f: impl FnOnce() + Send + 'static) {
    std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            ME.with(|m| *m.borrow_mut() = Some((w.clone(), i)));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let st = w.st.lock().unwrap();
                w.turn(st, i);
                let st = w.st.lock().unwrap();
                if st.tasks[i].aborted {
                    drop(st);
                    stop();
                }
                drop(st);
                f();
            }));
            let mut st = w.st.lock().unwrap_or_else(|e| e.into_inner());
            if let Err(e) = r {
                if !e.is::<Stop>() {
                    let m = message(&e);
                    let n = st.tasks[i].name;
                    st.problems.push(format!("{n} panics: {m}"));
                }
            }
            st.tasks[i].s = S::Done;
            if st.dead {
                w.end.notify_all();
            } else {
                w.pick(&mut st, i);
            }
            drop(st);
            ME.with(|m| *m.borrow_mut() = None);
        })
        .unwrap();
}
pub fn message(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}
/// A panic that someone catches is a problem all the same.
pub fn problem(s: String) {
    if let Some((w, _)) = me() {
        w.st.lock().unwrap().problems.push(s);
    }
}
pub fn is_stop(e: &Box<dyn std::any::Any + Send>) -> bool {
    e.is::<Stop>()
}
pub fn abort(i: usize) {
    if let Some((w, _)) = me() {
        let mut st = w.st.lock().unwrap();
        let t = &mut st.tasks[i];
        t.aborted = true;
        if t.can_abort && matches!(t.s, S::Waiting(_)) {
            t.s = S::Ready;
        }
    }
}
/// Ends the world: tasks that wait unwind.
pub fn finish() {
    if let Some((w, _)) = me() {
        let mut st = w.st.lock().unwrap();
        w.kill(&mut st);
    }
}
/// Runs `main` and all tasks that it starts under one schedule.
pub fn run(script: &[(usize, u8)], seed: u64, limit: usize, logging: bool, main: impl FnOnce() + Send + 'static) -> Outcome {
    let w = Arc::new(World {
        st: Mutex::new(St {
            tasks: vec![Task { s: S::Ready, cv: Arc::new(Condvar::new()), aborted: false, can_abort: false, name: "main" }],
            cur: 0,
            script: script.to_vec(),
            next: 0,
            point: 0,
            trail: vec![],
            clock: 0,
            ticks: 0,
            res: 0,
            held: BTreeMap::new(),
            problems: vec![],
            dead: false,
            limit,
            log: vec![],
            logging,
            seed,
        }),
        end: Condvar::new(),
    });
    start(w.clone(), 0, main);
    let mut st = w.st.lock().unwrap();
    while !st.tasks.iter().all(|t| t.s == S::Done) {
        st = w.end.wait(st).unwrap();
    }
    Outcome { trail: std::mem::take(&mut st.trail), points: st.point, problems: std::mem::take(&mut st.problems), log: std::mem::take(&mut st.log) }
}

/// Hash maps take their keys from here: iteration orders are part of the schedule.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let seed = ME.try_with(|m| m.try_borrow().ok().and_then(|m| m.as_ref().map(|(w, _)| w.st.lock().map_or(0, |s| s.seed)))).ok().flatten().unwrap_or(0);
    let mut x = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x1234_5678_9ABC_DEF1;
    for i in 0..len {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        unsafe { *buf.add(i) = x as u8 };
    }
    len as isize
}
