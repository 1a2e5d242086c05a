//! What a user's own `Serialize` and `Deserialize` implementations may do in the middle of a value: fail
//! with an error of their own, or use the crate again. Every place of the dynamic types where user code
//! runs is one tick; a plan says what happens at which tick of the running operation.
use std::cell::{Cell, RefCell};
use std::rc::Rc;

/// The ways a user's implementation raises an error through serde.
#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    Custom(String),
    Length(usize),
    Variant(String),
    Field(String),
    Missing,
    Duplicate,
    Type(u64),
    Value(String),
}
impl Fail {
    pub fn ser<E: serde::ser::Error>(&self) -> E {
        match self {
            Fail::Custom(m) => E::custom(m),
            x => E::custom(format_args!("{:?}", x)),
        }
    }
    pub fn de<E: serde::de::Error>(&self) -> E {
        use serde::de::Unexpected;
        match self {
            Fail::Custom(m) => E::custom(m),
            Fail::Length(n) => E::invalid_length(*n, &"another length"),
            Fail::Variant(v) => E::unknown_variant(v, &["one", "two"]),
            Fail::Field(v) => E::unknown_field(v, &[]),
            Fail::Missing => E::missing_field("here"),
            Fail::Duplicate => E::duplicate_field("there"),
            Fail::Type(n) => E::invalid_type(Unexpected::Unsigned(*n), &"something else"),
            Fail::Value(v) => E::invalid_value(Unexpected::Str(v), &"a better one"),
        }
    }
}

#[derive(Clone)]
pub enum Act {
    Fail(Fail),
    /// uses the crate again; complains if that goes wrong
    Nest(Rc<dyn Fn() -> Result<(), String>>),
    /// unwinds
    Panic,
}

/// What `Act::Panic` unwinds with.
pub struct Unwound;

#[derive(Default)]
struct State {
    /// in falling order of the tick
    plan: Vec<(usize, Act)>,
    bad: Option<String>,
}

thread_local! {
    static ON: Cell<u8> = const { Cell::new(0) };
    static COUNT: Cell<usize> = const { Cell::new(0) };
    static STATE: RefCell<State> = RefCell::new(State::default());
}

const USER: u8 = 1;
const IO: u8 = 2;
const FMT: u8 = 4;

#[inline]
fn on(kind: u8) -> bool {
    ON.with(|o| o.get()) & kind != 0
}

/// Called wherever the user's serialization code runs.
#[inline]
pub fn tick() -> Option<Fail> {
    if on(USER) {
        fire()
    } else {
        None
    }
}
/// Called where the user's `Display` runs; it does not fail.
#[inline]
pub fn tick_fmt() {
    if on(FMT) {
        fire();
    }
}
/// Called where the user's reader or writer runs.
#[inline]
pub fn tick_io() -> std::io::Result<()> {
    if on(IO) {
        if let Some(f) = fire() {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, format!("{:?}", f)));
        }
    }
    Ok(())
}
/// Whether readers and writers take part.
pub fn io_on() -> bool {
    on(IO)
}
#[cold]
fn fire() -> Option<Fail> {
    let n = COUNT.with(|c| c.replace(c.get() + 1));
    loop {
        let act = STATE.with(|s| {
            let mut s = s.borrow_mut();
            match s.plan.last() {
                Some(x) if x.0 == n => s.plan.pop(),
                _ => None,
            }
        });
        match act {
            None => return None,
            Some((_, Act::Fail(f))) => return Some(f),
            Some((_, Act::Panic)) => std::panic::resume_unwind(Box::new(Unwound)),
            Some((_, Act::Nest(f))) => {
                let mode = ON.with(|o| o.replace(0));
                let r = f();
                ON.with(|o| o.set(mode));
                if let Err(m) = r {
                    STATE.with(|s| drop(s.borrow_mut().bad.get_or_insert(m)));
                }
            }
        }
    }
}

struct Off;
impl Drop for Off {
    fn drop(&mut self) {
        ON.with(|o| o.set(0));
        STATE.with(|s| *s.borrow_mut() = State::default());
    }
}

pub struct Ran<T> {
    pub out: T,
    pub ticks: usize,
    /// a complaint of a nested use
    pub bad: Option<String>,
    /// actions that did not take place
    pub left: usize,
}

/// Runs `f` with the plan in force on this thread; the user's serialization code has the turns.
pub fn with<T>(plan: Vec<(usize, Act)>, f: impl FnOnce() -> T) -> Ran<T> {
    run(USER, plan, f)
}
/// The same with turns for the user's `Display`, readers and writers as well.
pub fn with_all<T>(plan: Vec<(usize, Act)>, f: impl FnOnce() -> T) -> Ran<T> {
    run(USER | IO | FMT, plan, f)
}
fn run<T>(mode: u8, mut plan: Vec<(usize, Act)>, f: impl FnOnce() -> T) -> Ran<T> {
    plan.sort_by(|a, b| b.0.cmp(&a.0));
    STATE.with(|s| *s.borrow_mut() = State { plan, bad: None });
    COUNT.with(|c| c.set(0));
    ON.with(|o| o.set(mode));
    let off = Off;
    let out = f();
    let ticks = COUNT.with(|c| c.get());
    let (bad, left) = STATE.with(|s| {
        let mut s = s.borrow_mut();
        (s.bad.take(), s.plan.len())
    });
    drop(off);
    Ran { out, ticks, bad, left }
}
