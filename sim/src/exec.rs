//! A task executor on simulated threads: which ready task a worker polls,
//! spurious polls and the dropping of tasks are seeded choices.

use std::cell::{Cell, UnsafeCell};
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::thread;

use blocking_permit::{deregister_dispatch_pool, register_dispatch_pool, DispatchPool};

use crate::note;
use crate::sim::{self, block, count_fault, ev, sim, Fk, Op, St, NEVER};

type Fut = Pin<Box<dyn Future<Output = ()> + Send>>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ts {
    Idle,
    Ready,
    Running,
    Again,
    Done,
}

struct Task {
    fut: Option<Fut>,
    st: Ts,
    waker: Option<Waker>,
    polls: u32,
    /// Dropped some time after this many polls.
    drop_after: Option<u32>,
    /// What the harness wants to know about the task while it is polled.
    tag: u32,
}

struct State {
    tasks: Vec<Task>,
    ready: Vec<usize>,
    live: usize,
    /// Tasks may wait without end: drop those that can be rather than wait.
    impatient: bool,
}

/// Only touched by the thread that holds the baton, in harness code.
struct Inner(UnsafeCell<State>);
unsafe impl Sync for Inner {}
unsafe impl Send for Inner {}

impl Inner {
    #[allow(clippy::mut_from_ref)]
    fn st(&self) -> &mut State {
        unsafe { &mut *self.0.get() }
    }
}

struct TaskWaker {
    inner: Arc<Inner>,
    task: usize,
}

impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        Wake::wake_by_ref(&self)
    }
    fn wake_by_ref(self: &Arc<Self>) {
        {
            let _g = sim::raw_guard();
            let s = self.inner.st();
            let t = &mut s.tasks[self.task];
            match t.st {
                Ts::Idle => {
                    t.st = Ts::Ready;
                    s.ready.push(self.task);
                    sim::notify(Arc::as_ptr(&self.inner) as usize, 1);
                }
                Ts::Running => t.st = Ts::Again,
                _ => {}
            }
        }
        if sim::active() {
            sim::point();
        }
    }
}

thread_local! {
    static TASK: Cell<i32> = const { Cell::new(-1) };
}

/// Tag of the task the calling thread is polling or dropping.
pub fn current_tag() -> Option<u32> {
    TASK.with(|t| if t.get() < 0 { None } else { Some(t.get() as u32) })
}

/// Run harness code that is no part of the task.
pub fn untagged<T>(f: impl FnOnce() -> T) -> T {
    let old = TASK.with(|t| t.replace(-1));
    let v = f();
    TASK.with(|t| t.set(old));
    v
}

pub struct Exec(Arc<Inner>);

enum Act {
    Exit,
    Wait,
    Poll(usize, Fut, Waker),
    Drop(usize, Fut),
}

impl Exec {
    pub fn new() -> Exec {
        Exec(Arc::new(Inner(UnsafeCell::new(State {
            tasks: Vec::new(),
            ready: Vec::new(),
            live: 0,
            impatient: false,
        }))))
    }

    pub fn impatient(self) -> Exec {
        self.0.st().impatient = true;
        self
    }

    pub fn spawn(&self, tag: u32, drop_after: Option<u32>, f: impl Future<Output = ()> + Send + 'static) {
        sim::raw(|| {
            let s = self.0.st();
            let i = s.tasks.len();
            let waker = Waker::from(Arc::new(TaskWaker { inner: self.0.clone(), task: i }));
            s.tasks.push(Task {
                fut: Some(Box::pin(f)),
                st: Ts::Ready,
                waker: Some(waker),
                polls: 0,
                drop_after,
                tag,
            });
            s.ready.push(i);
            s.live += 1;
        })
    }

    /// Run all tasks to their end on `n` threads.
    pub fn run(self, n: u32, pool: Option<DispatchPool>) {
        let mut hs = Vec::new();
        for _ in 0..n {
            let inner = self.0.clone();
            let pool = pool.clone();
            hs.push(thread::spawn(move || worker(inner, pool)));
        }
        drop(pool);
        for h in hs {
            h.join().unwrap();
        }
        // Wakers keep the executor alive.
        sim::raw(|| {
            for t in self.0.st().tasks.iter_mut() {
                t.waker = None;
            }
        });
    }
}

fn take(s: &mut State, i: usize) -> Act {
    s.ready.retain(|r| *r != i);
    let t = &mut s.tasks[i];
    t.st = Ts::Running;
    t.polls += 1;
    Act::Poll(i, t.fut.take().unwrap(), t.waker.clone().unwrap())
}

fn next(inner: &Inner) -> Act {
    let s = inner.st();
    if s.live == 0 {
        return Act::Exit;
    }
    let victims: Vec<usize> = s
        .tasks
        .iter()
        .enumerate()
        .filter(|(_, t)| {
            (t.st == Ts::Idle || t.st == Ts::Ready) && t.drop_after.map_or(false, |d| t.polls >= d)
        })
        .map(|(i, _)| i)
        .collect();
    let must = s.impatient && s.ready.is_empty();
    if !victims.is_empty() && (must || sim().f.chance(500)) {
        let i = victims[sim().f.below(victims.len() as u32) as usize];
        count_fault(Fk::Abandon);
        s.ready.retain(|r| *r != i);
        let t = &mut s.tasks[i];
        t.st = Ts::Running;
        return Act::Drop(i, t.fut.take().unwrap());
    }
    let p = sim().fl.p[Fk::SpuriousPoll as usize];
    if p > 0 && !s.ready.is_empty() {
        let idle: Vec<usize> =
            (0..s.tasks.len()).filter(|i| s.tasks[*i].st == Ts::Idle).collect();
        if !idle.is_empty() && sim().f.chance(p) {
            count_fault(Fk::SpuriousPoll);
            let i = idle[sim().f.below(idle.len() as u32) as usize];
            return take(s, i);
        }
    }
    if s.ready.is_empty() {
        return Act::Wait;
    }
    let k = sim().s.below(s.ready.len() as u32) as usize;
    let i = s.ready[k];
    take(s, i)
}

fn worker(inner: Arc<Inner>, pool: Option<DispatchPool>) {
    if let Some(p) = pool {
        register_dispatch_pool(p);
    }
    let key = Arc::as_ptr(&inner) as usize;
    loop {
        match sim::raw(|| next(&inner)) {
            Act::Exit => break,
            Act::Wait => {
                block(St::Cond { key, deadline: NEVER });
            }
            Act::Poll(i, mut fut, waker) => {
                note!("poll task {}", i);
                ev(Op::Task, i as u64, 0, 0);
                sim::point();
                TASK.with(|t| t.set(inner.st().tasks[i].tag as i32));
                let r = fut.as_mut().poll(&mut Context::from_waker(&waker));
                if r.is_ready() {
                    drop(fut);
                    TASK.with(|t| t.set(-1));
                    done(&inner, i);
                    drop(waker);
                    continue;
                }
                TASK.with(|t| t.set(-1));
                sim::raw(|| {
                    let s = inner.st();
                    let t = &mut s.tasks[i];
                    t.fut = Some(fut);
                    if t.st == Ts::Again {
                        t.st = Ts::Ready;
                        s.ready.push(i);
                        sim::notify(key, 1);
                    } else {
                        t.st = Ts::Idle;
                    }
                    note!("task {} pending", i);
                });
                drop(waker);
            }
            Act::Drop(i, fut) => {
                note!("drop task {}", i);
                ev(Op::Task, i as u64, 1, 0);
                sim::point();
                TASK.with(|t| t.set(inner.st().tasks[i].tag as i32));
                drop(fut);
                TASK.with(|t| t.set(-1));
                done(&inner, i);
            }
        }
    }
    deregister_dispatch_pool();
}

fn done(inner: &Arc<Inner>, i: usize) {
    sim::raw(|| {
        let s = inner.st();
        s.tasks[i].st = Ts::Done;
        s.tasks[i].waker = None;
        s.live -= 1;
        if s.live == 0 {
            sim::notify(Arc::as_ptr(inner) as usize, usize::MAX);
        }
        note!("task {} done", i);
    });
}

struct Flag(UnsafeCell<bool>);
unsafe impl Sync for Flag {}
unsafe impl Send for Flag {}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        Wake::wake_by_ref(&self)
    }
    fn wake_by_ref(self: &Arc<Self>) {
        {
            let _g = sim::raw_guard();
            unsafe { *self.0.get() = true };
            sim::notify(Arc::as_ptr(self) as usize, 1);
        }
        if sim::active() {
            sim::point();
        }
    }
}

/// Drive one future on the calling thread.
pub fn block_on<F: Future>(f: F) -> F::Output {
    let flag = Arc::new(Flag(UnsafeCell::new(false)));
    let waker = Waker::from(flag.clone());
    let mut f = Box::pin(f);
    loop {
        unsafe { *flag.0.get() = false };
        if let Poll::Ready(v) = f.as_mut().poll(&mut Context::from_waker(&waker)) {
            return v;
        }
        while !unsafe { *flag.0.get() } {
            block(St::Cond { key: Arc::as_ptr(&flag) as usize, deadline: NEVER });
        }
    }
}
