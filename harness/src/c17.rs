//! C17: optional colours report presence truthfully.
use crate::util::*;
use crate::vh::*;
use colorz::ansi::AnsiColor;
use colorz::css::CssColor;
use colorz::rgb::{Rgb, RgbColor};
use colorz::xterm::XtermColor;
use colorz::{Color, ColorSpec, Kind, NoColor, OptionalColor, WriteColor};

const NEVER: &str = "no-colour never yields a colour";
const ITSELF: &str = "a colour always yields itself";
const OPTION: &str = "an option yields its innermost colour exactly when every level is present";
const CLASS: &str = "the declared presence class agrees with what the value yields";

fn class<C: OptionalColor>(c: C) {
    match C::KIND {
        Kind::AlwaysSome => check(c.get().is_some(), CLASS),
        Kind::NeverSome => check(c.get().is_none(), CLASS),
        Kind::MaybeSome => check(true, CLASS),
    }
}
fn itself<C: WriteColor>(c: C) {
    match OptionalColor::get(c) {
        Some(x) => check(same_value(&x, &c), ITSELF),
        None => check(false, ITSELF),
    }
    class(c);
    option(c);
}
/// every way to wrap a value in up to three options
fn option<C: OptionalColor>(c: C) {
    let plain = c.get();
    let p = branch(plain.is_some());
    let yields = |x: Option<C::Color>| {
        check(branch(x.is_some()) == p, OPTION);
        check(same_value(&x, &plain), OPTION);
    };
    yields(Some(c).get());
    yields(Some(Some(c)).get());
    yields(Some(Some(Some(c))).get());
    check(None::<C>.get().is_none(), OPTION);
    check(None::<Option<C>>.get().is_none(), OPTION);
    check(Some(None::<C>).get().is_none(), OPTION);
    check(None::<Option<Option<C>>>.get().is_none(), OPTION);
    check(Some(None::<Option<C>>).get().is_none(), OPTION);
    check(Some(Some(None::<C>)).get().is_none(), OPTION);
    class(Some(c));
    class(None::<C>);
    class(Some(Some(c)));
    class(Some(None::<C>));
}
pub fn check_no_colour() {
    check(NoColor.get().is_none(), NEVER);
    check(Some(NoColor).get().is_none(), NEVER);
    check(Some(Some(NoColor)).get().is_none(), NEVER);
    class(NoColor);
    option(NoColor);
}
/// any colour of the library, as an opaque term
pub fn check_any_colour<C: WriteColor>() {
    itself(any::<C>("colour"));
}
pub fn check_any_spec<C: ColorSpec>() {
    itself(any::<C>("colour"));
}
pub fn check_any_optional<C: OptionalColor>() {
    let c: C = any("optional colour");
    class(c);
    option(c);
}
pub fn check_colours() {
    itself(any::<AnsiColor>("ansi colour"));
    itself(any::<XtermColor>("xterm colour"));
    itself(any::<CssColor>("css colour"));
    itself(any::<RgbColor>("rgb colour"));
    itself(any::<Color>("type-erased colour"));
}
pub fn check_optional_colour() {
    let c: Option<Color> = any("optional colour");
    check(same_value(&c.get(), &c), OPTION);
    option(c);
}
pub fn check_rgb_types<const R: u8, const G: u8, const B: u8>() {
    itself(Rgb::<R, G, B>);
}
pub fn check_implementation_concrete_OptionalColor<C: OptionalColor>() {
    let c: C = any("colour");
    class(c);
    option(c);
}
pub fn check_types_concrete_ColorSpec<C: ColorSpec>() {
    itself(any::<C>("colour"));
}
