//! C03: environment variables select the mode.
#![cfg(feature = "std")]
use crate::vh::*;
use colorz::mode::*;

/// the documented mode
fn documented() -> Option<Mode> {
    if branch(env_forces("NO_COLOR")) {
        Some(Mode::Never)
    } else if branch(env_forces("ALWAYS_COLOR")) || branch(env_forces("CLICOLOR_FORCE")) || branch(env_forces("FORCE_COLOR")) {
        Some(Mode::Always)
    } else {
        None
    }
}

pub fn check_read() {
    let got = Mode::from_env();
    let want = documented();
    check(got == want, "the mode read from the environment is the documented one");
}

pub fn check_apply() {
    let m: Mode = any("mode");
    let d: Stream = any("default stream");
    set_coloring_mode(m);
    set_default_stream(d);
    set_coloring_mode_from_env();
    let want = match documented() {
        Some(x) => x,
        None => m,
    };
    let want = if cfg!(feature = "strip-colors") { Mode::Never } else { want };
    check(get_coloring_mode() == want, "applying the environment sets exactly the mode it selects, or leaves the mode alone");
    check(get_default_stream() == d, "applying the environment leaves the default stream alone");
}

pub fn check_apply_first() {
    set_coloring_mode_from_env();
    let want = match documented() {
        Some(x) => x,
        None => Mode::Detect,
    };
    let want = if cfg!(feature = "strip-colors") { Mode::Never } else { want };
    check(get_coloring_mode() == want, "applying the environment first thing sets exactly the mode it selects");
}

/// the environment is read when it is asked for
pub fn check_read_again() {
    let _ = Mode::from_env();
    environment_changes();
    let got = Mode::from_env();
    let want = documented();
    check(got == want, "the mode read from the environment is the documented one, also after the environment has changed");
}
pub fn check_apply_again() {
    let m: Mode = any("mode");
    set_coloring_mode_from_env();
    set_coloring_mode(m);
    environment_changes();
    let stored = if cfg!(feature = "strip-colors") { Mode::Never } else { m };
    check(get_coloring_mode() == stored, "a change of the environment takes effect only when it is applied");
    set_coloring_mode_from_env();
    let want = match documented() {
        Some(x) => x,
        None => m,
    };
    let want = if cfg!(feature = "strip-colors") { Mode::Never } else { want };
    check(get_coloring_mode() == want, "applying the environment again sets exactly the mode it selects by then");
}
pub fn check_apply_twice() {
    set_coloring_mode_from_env();
    let before = match documented() {
        Some(x) => x,
        None => Mode::Detect,
    };
    environment_changes();
    set_coloring_mode_from_env();
    let want = match documented() {
        Some(x) => x,
        None => before,
    };
    let want = if cfg!(feature = "strip-colors") { Mode::Never } else { want };
    check(get_coloring_mode() == want, "applying the environment again sets exactly the mode it selects by then");
}
