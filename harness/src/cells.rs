//! Recording wakers and small unsynchronised shared cells (only one thread runs at a time).
use crate::sim;
use std::cell::UnsafeCell;
use std::sync::Arc;
use std::task::{Wake, Waker};

/// Shared state that needs no lock under the simulation: accesses contain no yield point.
pub struct Racy<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Racy<T> {}
unsafe impl<T> Send for Racy<T> {}
impl<T> Racy<T> {
    pub const fn new(t: T) -> Self {
        Racy(UnsafeCell::new(t))
    }
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}

/// What a waker does when woken, besides recording it.
pub type Action = Box<dyn FnMut() + Send>;

pub struct WakeCell {
    log: Racy<Vec<u64>>,
    seqs: Racy<Vec<u64>>,
    pub action: Racy<Option<Action>>,
    pub panics: Racy<bool>,
}

pub struct Task {
    pub cell: Arc<WakeCell>,
    pub waker: Waker,
}

impl WakeCell {
    pub fn new() -> Arc<WakeCell> {
        Arc::new(WakeCell {
            log: Racy::new(vec![]),
            seqs: Racy::new(vec![]),
            action: Racy::new(None),
            panics: Racy::new(false),
        })
    }
    pub fn count(&self) -> usize {
        self.log.get().len()
    }
    /// Virtual times of the wakes.
    pub fn times(&self) -> &[u64] {
        self.log.get()
    }
    fn hit(&self) {
        self.log.get().push(sim::now());
        self.seqs.get().push(sim::seq());
        if let Some(mut a) = self.action.get().take() {
            a();
        }
        if *self.panics.get() {
            std::panic::panic_any("waker panic on purpose");
        }
    }
}

impl Wake for WakeCell {
    fn wake(self: Arc<Self>) {
        self.hit();
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.hit();
    }
}

impl Task {
    pub fn new() -> Task {
        let cell = WakeCell::new();
        let waker = Waker::from(cell.clone());
        Task { cell, waker }
    }
    /// References to this task held by anybody but this object.
    pub fn outside_refs(&self) -> usize {
        Arc::strong_count(&self.cell) - 2
    }
    pub fn wakes(&self) -> usize {
        self.cell.count()
    }
}
