//! C15 number, C16 integers, C17 boolean, C18 bit and byte.
/// The name of the variant of an error.
pub trait Name {
    fn name(self) -> std::borrow::Cow<'static, str>;
}
#[macro_export]
macro_rules! impl_kind {
    ($t:ident: $($v:ident $(($p:tt))?)*) => {
        impl $crate::Name for $t {
            #[allow(unreachable_patterns)]
            fn name(self) -> std::borrow::Cow<'static, str> {
                match self {
                    $($t::$v $(($p))? => stringify!($v).into(),)*
                    e => engine::kind(&e).into(),
                }
            }
        }
    };
}
#[cfg(feature = "boolean")]
mod boolean;
#[cfg(feature = "int")]
mod int;
#[cfg(feature = "number")]
mod number;
#[cfg(feature = "size")]
mod size;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Unlimited,
    Inside,
    Outside,
}
#[derive(Clone, Debug)]
pub struct Range<T> {
    pub kind: Kind,
    pub min: Option<T>,
    pub max: Option<T>,
    pub inclusive: bool,
}
impl<T: PartialOrd + Copy> Range<T> {
    /// The error a value deserves.
    pub fn judge(&self, x: T) -> Option<&'static str> {
        let below = self.min.is_some_and(|m| x < m);
        let above = self.max.is_some_and(|m| if self.inclusive { x > m } else { !(x < m) });
        match self.kind {
            Kind::Unlimited => None,
            Kind::Inside if below => Some("TooSmall"),
            Kind::Inside if above => Some("TooLarge"),
            Kind::Inside => None,
            // without limits nothing is excluded
            Kind::Outside if self.min.is_none() && self.max.is_none() => None,
            Kind::Outside if !below && !above => Some("Forbidden"),
            Kind::Outside => None,
        }
    }
}

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    engine::Run::main(&id, |run| match id.as_str() {
        #[cfg(feature = "number")]
        "C15" => number::explore(run),
        #[cfg(feature = "int")]
        "C16" => int::explore(run),
        #[cfg(feature = "boolean")]
        "C17" => boolean::explore(run),
        #[cfg(feature = "size")]
        "C18" => size::explore(run),
        _ => panic!("unknown property {run:?}", run = run.thorough),
    })
}
