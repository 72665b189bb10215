//! What operations of the standard library do that rest on the operating system: the analyser enters these instead.
use crate::vh::*;
use std::sync::{LazyLock, Once, OnceLock};

pub fn once_lock_get_or_init<T, F: FnOnce() -> T>(cell: &OnceLock<T>, f: F) -> &T {
    if !cell_full(cell) {
        cell_begin(cell);
        let v = f();
        cell_put(cell, v);
    }
    cell_ref(cell)
}
pub fn once_lock_get<T>(cell: &OnceLock<T>) -> Option<&T> {
    if cell_full(cell) {
        Some(cell_ref(cell))
    } else {
        None
    }
}
pub fn once_lock_set<T>(cell: &OnceLock<T>, v: T) -> Result<(), T> {
    if cell_full(cell) {
        Err(v)
    } else {
        cell_put(cell, v);
        Ok(())
    }
}
pub fn once_call_once<F: FnOnce()>(once: &Once, f: F) {
    if !cell_full(once) {
        cell_begin(once);
        f();
        cell_put(once, ());
    }
}
pub fn once_is_completed(once: &Once) -> bool {
    cell_full(once)
}
pub fn lazy_lock_force<T, F: FnOnce() -> T>(lazy: &LazyLock<T, F>) -> &T {
    let cell = lazy_cell(lazy);
    if !cell_full(cell) {
        cell_begin(cell);
        let f: F = lazy_init(lazy);
        cell_put(cell, f());
    }
    cell_ref(cell)
}
