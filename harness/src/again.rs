//! Output does not depend on what has been written before, on failures, or on what other threads write.
use crate::util::*;
use crate::vh::*;
use core::fmt;

const AGAIN: &str = "the output is the same whatever has been written before";
const RACE: &str = "the output is the same while another thread writes something else";
const MANY: &str = "the output is the same after many calls, failed ones included";

/// four outputs, in 17 shards: every pair, and many calls in a row
pub fn again(write: impl Fn(usize, &mut fmt::Formatter<'_>) -> fmt::Result + Copy) {
    let s = shard();
    if s == 16 {
        return many(write);
    }
    let (i, j) = (s & 3, s >> 2);
    let a = out(|f| write(i, f));
    let b = out(|f| write(j, f));
    check(same(a, out(|f| write(i, f))), AGAIN);
    check(same(b, out(|f| write(j, f))), AGAIN);
    let _ = write(j, plain_formatter(new_sink(true)));
    check(same(a, out(|f| write(i, f))), AGAIN);
    meanwhile(move || {
        let _ = out(|f| write(j, f));
    });
    let c = out(|f| write(i, f));
    joined();
    check(same(a, c), RACE);
    check(same(a, out(|f| write(i, f))), RACE);
}
fn many(write: impl Fn(usize, &mut fmt::Formatter<'_>) -> fmt::Result + Copy) {
    let i = branch_index();
    let a = out(|f| write(i, f));
    let mut n = 0;
    while n < 260 {
        let bad = new_sink(true);
        let _ = write(i, plain_formatter(bad));
        // the writer fails at once
        assume(branch(error_happened(bad)) & is_empty(bad));
        n += 1;
    }
    check(same(a, out(|f| write(i, f))), MANY);
    n = 0;
    while n < 260 {
        let _ = write(i, plain_formatter(new_sink(false)));
        n += 1;
    }
    check(same(a, out(|f| write(i, f))), MANY);
}
fn branch_index() -> usize {
    let i: u8 = any("which");
    assume(branch(i < 4));
    if branch(i & 1 != 0) {
        if branch(i & 2 != 0) { 3 } else { 1 }
    } else {
        if branch(i & 2 != 0) { 2 } else { 0 }
    }
}
