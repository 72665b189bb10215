//! C06: writer errors stop output and are returned.
use crate::util::*;
use crate::vh::*;
use colorz::mode::*;
use colorz::{ColorSpec, Effect, EffectFlags, OptionalColor, Style, StyledValue, WriteColor};
use core::fmt::{self, *};

const STOP: &str = "nothing is written after an error";
const REPORT: &str = "an error is returned exactly when one was reported";

fn verdict(o: usize, r: fmt::Result) {
    check(!wrote_after_error(o), STOP);
    check(r.is_err() == error_happened(o), REPORT);
}
const FEW: [Effect; 4] = [Effect::Bold, Effect::Underline, Effect::Italic, Effect::SubScript];
fn effects() -> EffectFlags {
    let e = effects_or(&FEW);
    shard_effects(e);
    e
}

pub fn check_apply_s8<F: OptionalColor, B: OptionalColor, U: OptionalColor>() {
    let s = style_of::<F, B, U>(any("foreground"), any("background"), any("underline_color"), effects());
    let o = new_sink(true);
    let r = fmt::Display::fmt(&s.apply(), plain_formatter(o));
    verdict(o, r);
}
pub fn check_clear_s8<F: OptionalColor, B: OptionalColor, U: OptionalColor>() {
    let s = style_of::<F, B, U>(any("foreground"), any("background"), any("underline_color"), effects());
    let o = new_sink(true);
    let r = fmt::Display::fmt(&s.clear(), plain_formatter(o));
    verdict(o, r);
}
pub fn check_apply_debug<F: OptionalColor, B: OptionalColor, U: OptionalColor>() {
    let s = any_style::<F, B, U>(&[Effect::Bold, Effect::Underline]);
    let o = new_sink(true);
    let r = fmt::Debug::fmt(&s.apply(), plain_formatter(o));
    verdict(o, r);
}
pub fn check_clear_debug<F: OptionalColor, B: OptionalColor, U: OptionalColor>() {
    let s = any_style::<F, B, U>(&[Effect::Bold, Effect::Underline]);
    let o = new_sink(true);
    let r = fmt::Debug::fmt(&s.clear(), plain_formatter(o));
    verdict(o, r);
}
pub fn check_clear_all() {
    let o = new_sink(true);
    let r = fmt::Display::fmt(&Style::clear_all(), plain_formatter(o));
    verdict(o, r);
    let o = new_sink(true);
    let r = fmt::Debug::fmt(&Style::clear_all(), plain_formatter(o));
    verdict(o, r);
}
macro_rules! layers {
    ($($f:ident $g:ident $m:ident)*) => { $(
        pub fn $f<C: WriteColor>() {
            let c: C = any("color");
            let o = new_sink(true);
            let r = c.$m(plain_formatter(o));
            verdict(o, r);
        }
        pub fn $g<C: ColorSpec>() {
            let c: C = any("color");
            let o = new_sink(true);
            let r = c.$m(plain_formatter(o));
            verdict(o, r);
        }
    )* };
}
layers! {
    check_foreground_concrete_WriteColor check_spec_foreground_concrete_ColorSpec fmt_foreground
    check_background_concrete_WriteColor check_spec_background_concrete_ColorSpec fmt_background
    check_underline_concrete_WriteColor check_spec_underline_concrete_ColorSpec fmt_underline
    check_foreground_args_concrete_WriteColor check_spec_foreground_args_concrete_ColorSpec fmt_foreground_args
    check_background_args_concrete_WriteColor check_spec_background_args_concrete_ColorSpec fmt_background_args
    check_underline_args_concrete_WriteColor check_spec_underline_args_concrete_ColorSpec fmt_underline_args
}
fn styled<T, F: OptionalColor, B: OptionalColor, U: OptionalColor>(of: &[Effect]) -> StyledValue<T, F, B, U> {
    set_coloring_mode(any("mode"));
    StyledValue::new(any("value"), any_style::<F, B, U>(of), Some(Stream::AlwaysColor))
}
macro_rules! values {
    ($($f:ident $tr:ident)*) => { $( pub fn $f<T: fmt::$tr, F: OptionalColor, B: OptionalColor, U: OptionalColor>() {
        let v = styled::<T, F, B, U>(&[Effect::Underline]);
        let o = new_sink(true);
        let r = fmt::$tr::fmt(&v, plain_formatter(o));
        verdict(o, r);
    } )* };
}
values! {
    check_display Display
    check_debug Debug
    check_binary Binary
    check_octal Octal
    check_pointer Pointer
    check_lower_exp LowerExp
    check_upper_exp UpperExp
    check_lower_hex LowerHex
    check_upper_hex UpperHex
}
/// a custom formatter that fails without the writer failing
pub fn check_custom<T, F: OptionalColor, B: OptionalColor, U: OptionalColor>() {
    let v = styled::<T, F, B, U>(&[Effect::Underline, Effect::Bold]);
    let fails: bool = any("the custom formatter fails");
    let o = new_sink(true);
    let mut at = 0;
    let p = &mut at;
    let r = v.fmt_with(plain_formatter(o), |_, f| {
        f.write_str("<the value>")?;
        if fails {
            *p = 1;
            return Err(fmt::Error);
        }
        Ok(())
    });
    check(!wrote_after_error(o), STOP);
    check(r.is_err() == (error_happened(o) || at == 1), REPORT);
}
/// after a custom formatter's own error nothing more is written
pub fn check_custom_stops<T, F: OptionalColor, B: OptionalColor, U: OptionalColor>() {
    let v = styled::<T, F, B, U>(&[Effect::Underline, Effect::Bold]);
    let c = branch(v.style.should_color(v.stream));
    let o = new_sink(false);
    let r = v.fmt_with(plain_formatter(o), |_, _| Err(fmt::Error));
    check(r.is_err(), REPORT);
    let x = new_sink(false);
    if c {
        let _ = fmt::Display::fmt(&v.style.apply(), plain_formatter(x));
    }
    check(same(o, x), STOP);
}
