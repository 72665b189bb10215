//! Presence contract of OptionalColor: which (declared class, presence) pairs occur.
use crate::vh::*;
use colorz::OptionalColor;

pub fn relation_each_OptionalColor<T: OptionalColor>() {
    let v: T = any("color");
    let present = v.get().is_some();
    record_relation(T::KIND, branch(present));
}
