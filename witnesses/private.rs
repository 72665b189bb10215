//! The sealing trait and the contents of effect sets.
#![allow(dead_code, unused)]
use colorz::{Effect, EffectFlags};

// bad: naming the sealing trait
#[cfg(bad)]
pub mod seal {
    use colorz::seal::Seal;
}
// end

pub mod legal {
    use colorz::WriteColor;
}
pub fn legal_effects() -> bool {
    EffectFlags::new().with(Effect::Bold).is(Effect::Bold)
}
