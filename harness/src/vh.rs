//! Vocabulary of the rules. These functions are never executed: the analyser gives them their meaning.
#![allow(unused_variables)]
use core::fmt::Formatter;

/// every value of the type (generic parameters: an opaque term)
pub fn any<T>(name: &str) -> T {
    loop {}
}
/// every subset of the bits set in the given value
pub fn any_subset<T>(name: &str, of: T) -> T {
    loop {}
}
/// every text of this length
pub fn any_text(name: &str, len: usize) -> &'static str {
    loop {}
}
pub fn assume(c: bool) {
    loop {}
}
pub fn check(c: bool, what: &str) {
    loop {}
}
/// a place output goes to; `failing`: every write may report an error
pub fn new_sink(failing: bool) -> usize {
    loop {}
}
/// a formatter with unknown caller options
pub fn formatter(sink: usize) -> &'static mut Formatter<'static> {
    loop {}
}
/// a formatter without options
pub fn plain_formatter(sink: usize) -> &'static mut Formatter<'static> {
    loop {}
}
/// the two outputs are the same text
pub fn same(a: usize, b: usize) -> bool {
    loop {}
}
/// the two outputs consist of SGR sequences carrying the same commands, in any order
pub fn sgr_same(a: usize, b: usize) -> bool {
    loop {}
}
/// as `sgr_same`, ignoring repetition
pub fn sgr_same_set(a: usize, b: usize) -> bool {
    loop {}
}
/// append the decimal digit (0..=9) to the output
pub fn put_digit(sink: usize, digit: u8) {
    loop {}
}
/// the byte at this place of the output, 256 behind its end
pub fn text_at(sink: usize, place: usize) -> u16 {
    loop {}
}
pub fn is_empty(a: usize) -> bool {
    loop {}
}
pub fn sgr_ok(a: usize) -> bool {
    loop {}
}
pub fn args_ok(a: usize) -> bool {
    loop {}
}
pub fn wrote_after_error(a: usize) -> bool {
    loop {}
}
pub fn error_happened(a: usize) -> bool {
    loop {}
}
pub fn shard() -> usize {
    loop {}
}
/// from here on other threads may change the global settings at any moment
pub fn concurrent(on: bool) {
    loop {}
}
/// from here on the environment variables have other values
pub fn environment_changes() {
    loop {}
}
/// cells that are written once: is it written?
pub fn cell_full<C>(cell: &C) -> bool {
    loop {}
}
/// this thread is about to write it; other threads wait
pub fn cell_begin<C>(cell: &C) {
    loop {}
}
pub fn cell_put<C, T>(cell: &C, v: T) {
    loop {}
}
pub fn cell_ref<C, T>(cell: &C) -> &T {
    loop {}
}
/// the cell and the initialiser of a lazy cell
pub fn lazy_cell<C>(lazy: &C) -> &() {
    loop {}
}
pub fn lazy_init<C, F>(lazy: &C) -> F {
    loop {}
}
/// another thread does this, as a whole, at some moment before `joined`: before any of the atomic operations to come
pub fn meanwhile<F: FnOnce()>(f: F) {
    loop {}
}
/// what the other thread does is done
pub fn joined() {
    loop {}
}
pub fn probe_count(stream: usize) -> usize {
    loop {}
}
pub fn probe(stream: usize, k: usize, field: usize) -> bool {
    loop {}
}
pub fn probe_fields() -> usize {
    loop {}
}
pub fn env_forces(name: &str) -> bool {
    loop {}
}
pub fn globals_touched() -> bool {
    loop {}
}
pub fn stores_done() -> bool {
    loop {}
}
pub fn forget_globals() {
    loop {}
}
/// decide the condition here (one path per outcome)
pub fn branch(c: bool) -> bool {
    loop {}
}
pub fn feature(name: &str) -> bool {
    loop {}
}
pub fn record_relation<K>(k: K, present: bool) {
    loop {}
}
/// the two values are identical
pub fn same_value<A, B>(a: &A, b: &B) -> bool {
    loop {}
}
