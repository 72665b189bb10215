//! Styles and styled values written as literals.
#![allow(dead_code, unused)]
use colorz::{ansi, Colorize, EffectFlags, NoColor, Style, StyledValue};

// bad: a style literal
#[cfg(bad)]
pub fn style() -> Style<NoColor, NoColor, NoColor> {
    Style { foreground: NoColor, background: NoColor, underline_color: NoColor, effects: EffectFlags::new() }
}
// bad: a style literal over another style
#[cfg(bad)]
pub fn style_update() -> Style<NoColor, NoColor, NoColor> {
    Style { effects: EffectFlags::all(), ..Style::new() }
}
// bad: an exhaustive pattern on a style
#[cfg(bad)]
pub fn style_pattern(s: Style) {
    let Style { foreground, background, underline_color, effects } = s;
}
// bad: a styled value literal
#[cfg(bad)]
pub fn value() -> StyledValue<u8> {
    StyledValue { value: 1, style: Style::new(), stream: None }
}
// bad: a styled value literal over another styled value
#[cfg(bad)]
pub fn value_update(v: StyledValue<u8>) -> StyledValue<u8> {
    StyledValue { value: 2, ..v }
}
// bad: an exhaustive pattern on a styled value
#[cfg(bad)]
pub fn value_pattern(v: StyledValue<u8>) {
    let StyledValue { value, style, stream } = v;
}
// end

pub fn legal() -> Style<ansi::Red, NoColor, NoColor> {
    let s: Style<NoColor, NoColor, NoColor> = Style::new();
    let _ = (s.foreground, s.background, s.underline_color, s.effects);
    let Style { foreground, .. } = s;
    s.fg(ansi::Red)
}
pub fn legal_value(v: StyledValue<u8>) -> StyledValue<u8> {
    let _ = (&v.value, v.style, v.stream);
    let StyledValue { value, .. } = v;
    StyledValue::new(value, Style::new(), None)
}
