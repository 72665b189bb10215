//! C05: a styled value prints as prefix, value, suffix - or the bare value.
use crate::util::*;
use crate::vh::*;
use colorz::mode::*;
use colorz::{Effect, NoColor, OptionalColor, StyledValue};
use core::fmt::{self, *};

fn stream() -> Option<Stream> {
    match shard() {
        0 => None,
        1 => Some(Stream::Stdout),
        2 => Some(Stream::Stderr),
        3 => Some(Stream::AlwaysColor),
        _ => Some(Stream::NeverColor),
    }
}
fn settings() {
    set_coloring_mode(any("mode"));
    set_default_stream(any("default stream"));
}
macro_rules! compare {
    ($tr:ident $s:ident $v:ident) => {
        let c = branch($s.should_color($v.stream));
        let o = new_sink(false);
        let r = fmt::$tr::fmt(&$v, plain_formatter(o));
        check(r.is_ok(), "formatting a styled value succeeds on a working writer");
        let x = new_sink(false);
        if c {
            let _ = fmt::Display::fmt(&$s.apply(), plain_formatter(x));
        }
        let _ = fmt::$tr::fmt(&$v.value, plain_formatter(x));
        if c {
            let _ = fmt::Display::fmt(&$s.clear(), plain_formatter(x));
        }
        check(same(o, x), "a styled value prints as prefix, value, suffix when it is to be coloured, else as the bare value");
    };
}
pub fn check_display_s5<T: fmt::Display, F: OptionalColor, U: OptionalColor>() {
    settings();
    let e = effects_or(&[Effect::Bold, Effect::Underline]);
    let s = style_of::<F, NoColor, U>(any("foreground"), NoColor, any("underline_color"), e);
    let v: StyledValue<T, F, NoColor, U> = StyledValue::new(any("value"), s, stream());
    compare!(Display s v);
}
macro_rules! sequential {
    ($($f:ident $tr:ident)*) => { $(
        pub fn $f<T: fmt::$tr, F: OptionalColor>() {
            set_coloring_mode(any("mode"));
            let e = effects_or(&[Effect::Underline]);
            let s = style_of::<F, NoColor, NoColor>(any("foreground"), NoColor, NoColor, e);
            let v: StyledValue<T, F> = StyledValue::new(any("value"), s, any("stream"));
            compare!($tr s v);
        }
    )* };
}
sequential! {
    check_debug Debug
    check_binary Binary
    check_octal Octal
    check_pointer Pointer
    check_lower_exp LowerExp
    check_upper_exp UpperExp
    check_lower_hex LowerHex
    check_upper_hex UpperHex
}

pub fn check_custom_s5<T, F: OptionalColor>() {
    settings();
    let e = effects_or(&[Effect::Bold, Effect::Underline]);
    let s = style_of::<F, NoColor, NoColor>(any("foreground"), NoColor, NoColor, e);
    let v: StyledValue<T, F> = StyledValue::new(any("value"), s, stream());
    let c = branch(s.should_color(v.stream));
    let o = new_sink(false);
    let mut calls = 0;
    let n = &mut calls;
    let inner = &v.value;
    let r = v.fmt_with(plain_formatter(o), |t, f| {
        *n += 1;
        check(same_value(t, inner), "a custom formatter gets the inner value");
        f.write_str("<the value>")
    });
    check(r.is_ok(), "formatting a styled value succeeds on a working writer");
    check(calls == 1, "a custom formatter is called exactly once");
    let x = new_sink(false);
    if c {
        let _ = fmt::Display::fmt(&s.apply(), plain_formatter(x));
    }
    let _ = plain_formatter(x).write_str("<the value>");
    if c {
        let _ = fmt::Display::fmt(&s.clear(), plain_formatter(x));
    }
    check(same(o, x), "a custom formatter writes between prefix and suffix when the value is to be coloured, else alone");
}

// what other threads may do at the same time: query and set
pub fn collect_should_color() {
    concurrent(true);
    let _ = should_color(any("stream"), &[any("kind")]);
}
pub fn collect_set_mode() {
    concurrent(true);
    set_coloring_mode(any("mode"));
}
pub fn collect_set_default() {
    concurrent(true);
    set_default_stream(any("default stream"));
}
/// whatever others set meanwhile, either both prefix and suffix appear or neither
pub fn check_race<T: fmt::Display>() {
    let s = colorz::Style::new().fg(colorz::ansi::Red).bold();
    let v = StyledValue::new(any::<T>("value"), s, any("stream"));
    concurrent(true);
    let o = new_sink(false);
    let r = fmt::Display::fmt(&v, plain_formatter(o));
    concurrent(false);
    check(r.is_ok(), "formatting a styled value succeeds on a working writer");
    let a = new_sink(false);
    let _ = fmt::Display::fmt(&s.apply(), plain_formatter(a));
    let _ = fmt::Display::fmt(&v.value, plain_formatter(a));
    let _ = fmt::Display::fmt(&s.clear(), plain_formatter(a));
    let b = new_sink(false);
    let _ = fmt::Display::fmt(&v.value, plain_formatter(b));
    let coloured = same(o, a);
    let bare = same(o, b);
    check(coloured || bare, "prefix and suffix both appear or both do not, whatever other threads set meanwhile");
}
/// the colouring decision follows the settings at the moment of the call, whatever was printed before
pub fn check_history_s5() {
    settings();
    let s = colorz::Style::new().fg(colorz::ansi::Red);
    let first = StyledValue::new("first", s, any("stream of the first"));
    let _ = fmt::Display::fmt(&first, plain_formatter(new_sink(false)));
    set_coloring_mode(any("later mode"));
    set_default_stream(any("later default stream"));
    let v = StyledValue::new("text", s, stream());
    compare!(Display s v);
}
/// whatever has been written before, and while another thread writes
fn sample(i: usize, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    use colorz::Colorize;
    match i {
        0 => fmt::Display::fmt(&"x".red(), f),
        1 => fmt::Display::fmt(&7.on_blue().underline().stream(Stream::NeverColor), f),
        2 => fmt::Display::fmt(&"y".fg(colorz::rgb::RgbColor { red: 1, green: 22, blue: 203 }).bold().underline().stream(Stream::AlwaysColor), f),
        // a styled value within a styled value
        _ => fmt::Display::fmt(&"z".into_red().into_style().bold(), f),
    }
}
pub fn check_again_s17() {
    crate::again::again(sample);
}
