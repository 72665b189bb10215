//! C25: a style is plain exactly when applying it writes nothing.
use crate::util::*;
use crate::vh::*;
use colorz::{Color, EffectFlags, NoColor, OptionalColor, Style};
use core::fmt;

const APPLY: &str = "a style is plain exactly when applying it writes nothing";
const CLEAR: &str = "a style is plain exactly when clearing it writes nothing";

fn judge<F: OptionalColor, B: OptionalColor, U: OptionalColor>(s: Style<F, B, U>) {
    let plain = branch(s.is_plain());
    let o = out(|f| fmt::Display::fmt(&s.apply(), f));
    check(is_empty(o) == plain, APPLY);
    let o = out(|f| fmt::Display::fmt(&s.clear(), f));
    check(is_empty(o) == plain, CLEAR);
}
pub fn check_plain_s8<F: OptionalColor, B: OptionalColor, U: OptionalColor>() {
    let e = style_effects();
    shard_effects(e);
    judge(style_of::<F, B, U>(any("foreground"), any("background"), any("underline_color"), e));
}
pub fn check_compile_time_layers<F: OptionalColor, U: OptionalColor>() {
    let e = effects_among("effects", &SOME_EFFECTS);
    judge(style_of(any::<F>("foreground"), NoColor, any::<U>("underline_color"), e));
    judge(style_of(NoColor, any::<F>("background"), any::<U>("underline_color"), e));
    judge(style_of(NoColor, NoColor, any::<U>("underline_color"), e));
    judge(style_of(NoColor, NoColor, NoColor, e));
}
pub fn check_plain_styles() {
    let what = "a style without colours and effects is plain";
    check(Style::new().is_plain(), what);
    check(Style::default().is_plain(), what);
    check(Style::new().into_runtime_style().is_plain(), what);
    check(Style::new().const_into_runtime_style().is_plain(), what);
    check(Style::new().bold().clear_effects().is_plain(), what);
    let s: Style = Style::new().fg(None::<Color>).bg(None::<Color>).underline_color(None::<Color>).effect_flags(EffectFlags::new()).into_runtime_style();
    check(s.is_plain(), what);
}
