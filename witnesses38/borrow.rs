//! Borrowing calls borrow and consuming calls consume.
// editions: 2021
#![allow(dead_code)]
use colorz::{ansi, Colorize, StyledValue};

pub struct Plain;

// bad: a borrowing styled value does not outlive what it borrows
#[cfg(bad)]
fn bad_borrow() -> StyledValue<&'static u8, ansi::Red> {
    let x = 1u8 + core::hint::black_box(1);
    x.red()
}
// bad: a consuming call takes the value
#[cfg(bad)]
fn bad_consume(x: Plain) -> (StyledValue<Plain, ansi::Red>, Plain) {
    (x.into_red(), x)
}
// end

pub fn borrow(x: &u8) -> StyledValue<&u8, ansi::Red> {
    x.red()
}
pub fn twice(x: Plain) -> Plain {
    let _ = (x.red(), x.blue().bold());
    x
}
pub fn consume(x: Plain) -> StyledValue<Plain, ansi::Red> {
    x.into_red()
}
