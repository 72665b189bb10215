//! Using a foreign type where the library asks for one of its colours.
#![allow(dead_code)]
use colorz::{ansi, Style};

#[derive(Debug, Clone, Copy)]
pub struct Mine;

// bad: a style over foreign types has output
#[cfg(bad)]
pub fn output() -> impl core::fmt::Display {
    Style::new().bg(Mine).apply()
}
// end

pub fn legal_output() -> impl core::fmt::Display {
    Style::new().bg(ansi::Red).apply()
}
