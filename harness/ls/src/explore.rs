//! Enumerates schedules: all that differ from the default one in at most `bound` places.
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use vpsched::Outcome;
#[derive(Default)]
pub struct Stats {
    pub schedules: AtomicU64,
    pub points: AtomicU64,
    pub longest: AtomicUsize,
}
pub type Script = Vec<(usize, u8)>;
/// `run` executes and judges a schedule of scenario `i` and says whether to vary it further.
pub fn all(n: usize, bound: impl Fn(usize) -> usize + Sync, run: impl Fn(usize, &Script) -> (Outcome, bool) + Sync, stop: impl Fn() -> bool + Sync) -> Stats {
    let st = Stats::default();
    let todo: Mutex<Vec<(usize, Script)>> = Mutex::new((0..n).rev().map(|i| (i, vec![])).collect());
    let busy = AtomicUsize::new(0);
    let end = AtomicBool::new(false);
    std::thread::scope(|s| {
        for _ in 0..20 {
            s.spawn(|| loop {
                if end.load(SeqCst) || stop() {
                    break;
                }
                let job = {
                    let mut t = todo.lock().unwrap();
                    let j = t.pop();
                    match &j {
                        Some(_) => {
                            busy.fetch_add(1, SeqCst);
                        }
                        None if busy.load(SeqCst) == 0 => end.store(true, SeqCst),
                        None => {}
                    }
                    j
                };
                let Some((i, s)) = job else {
                    std::thread::sleep(std::time::Duration::from_micros(200));
                    continue;
                };
                let (o, more) = run(i, &s);
                st.schedules.fetch_add(1, SeqCst);
                st.points.fetch_add(o.points as u64, SeqCst);
                st.longest.fetch_max(o.points, SeqCst);
                if more && s.len() < bound(i) {
                    let last = s.last().map_or(0, |x| x.0);
                    let mut t = todo.lock().unwrap();
                    for (p, n) in o.trail.iter().filter(|x| x.0 > last) {
                        for c in 1..*n {
                            let mut v = s.clone();
                            v.push((*p, c));
                            t.push((i, v));
                        }
                    }
                }
                busy.fetch_sub(1, SeqCst);
            });
        }
    });
    st
}
