//! The entry points of a validator behind function pointers.  An outcome is the shown value or the shown error.
use std::fmt::Debug;
use validators::prelude::*;

pub type Out = Result<String, String>;
#[cfg(not(feature = "axum"))]
pub trait Fails: Debug + std::fmt::Display {}
#[cfg(not(feature = "axum"))]
impl<E: Debug + std::fmt::Display> Fails for E {}
#[cfg(feature = "axum")]
pub trait Fails: Debug + std::fmt::Display + axum::response::IntoResponse {}
#[cfg(feature = "axum")]
impl<E: Debug + std::fmt::Display + axum::response::IntoResponse> Fails for E {}
/// The shown error.  With axum, also the response it becomes, which must be a 400 with the error's text.
fn shown<E: Fails>(e: E) -> String {
    let s = format!("{e:?}: {e}");
    #[cfg(feature = "axum")]
    {
        let (text, status, body) = crate::web::reply(e);
        assert!(status == 400 && body == text, "response {status} {body:?} for the error {text:?}");
    }
    s
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Fam { B32, B64, B64U, Size, Bool, Net, Mail, Url, Json, Text, Mac, Num, Phone, Semver, Int, Uuid }

pub fn out<T: Debug, E: Fails>(r: Result<T, E>) -> Out {
    r.map(|v| format!("{v:?}")).map_err(shown)
}
/// (parsed, validated without parsing)
pub type Pair = (Out, Out);
macro_rules! ints {
    ($t:ident $c:ident $name:ident: $big:ident; $($w:ident $p:ident $v:ident),*) => {
        pub type $name = Vec<(&'static str, fn($big) -> Option<Pair>)>;
        pub fn $c<T: $t<Error = E> + Debug, E: Fails>() -> $name {
            vec![$((stringify!($p), |x| { let x = <$w>::try_from(x).ok()?; Some((out(T::$p(x)), out(T::$v(x)))) })),*]
        }
    };
}
ints!(ValidateSignedInteger iops IOps: i128; i128 parse_i128 validate_i128, i8 parse_i8 validate_i8, i16 parse_i16 validate_i16, i32 parse_i32 validate_i32, i64 parse_i64 validate_i64, isize parse_isize validate_isize);
ints!(ValidateUnsignedInteger uops UOps: u128; u128 parse_u128 validate_u128, u8 parse_u8 validate_u8, u16 parse_u16 validate_u16, u32 parse_u32 validate_u32, u64 parse_u64 validate_u64, usize parse_usize validate_usize);

pub struct SOps {
    pub str: fn(&str) -> Out,
    pub string: fn(&str) -> Out,
    pub validate: fn(&str) -> Out,
    #[cfg(feature = "wrap")]
    pub wrap: [(&'static str, fn(&str) -> Out); 3],
}
pub struct BOps {
    pub slice: fn(&[u8]) -> Out,
    pub vec: fn(&[u8]) -> Out,
    pub validate: fn(&[u8]) -> Out,
    #[cfg(feature = "wrap")]
    pub wrap: [(&'static str, fn(&[u8]) -> Out); 2],
}
pub struct V {
    pub name: &'static str,
    pub fam: Fam,
    /// a value read back from its serialized form is the same
    pub round: bool,
    pub size: bool,
    pub s: Option<SOps>,
    pub b: Option<BOps>,
    pub c: Option<fn(char) -> Pair>,
    pub i: Option<IOps>,
    pub u: Option<UOps>,
    pub n: Option<(fn(f64) -> Pair, fn(f32) -> Pair)>,
    pub o: Option<fn(bool) -> Pair>,
    pub j: Option<fn(serde_json::Value) -> Pair>,
    #[cfg(feature = "serde")]
    pub serde: Option<crate::ser::Serde>,
    #[cfg(feature = "rocket")]
    pub rocket: Option<crate::web::Rocket>,
    #[cfg(feature = "wrap")]
    pub w: crate::wrap::Wraps,
}
impl V {
    pub fn new(name: &'static str, fam: Fam) -> V {
        V { name, fam, round: true, size: false, s: None, b: None, c: None, i: None, u: None, n: None, o: None, j: None,
            #[cfg(feature = "serde")]
            serde: None,
            #[cfg(feature = "rocket")]
            rocket: None,
            #[cfg(feature = "wrap")]
            w: Default::default() }
    }
}
pub fn sops<T: ValidateString<Error = E> + Debug, E: Fails>() -> SOps {
    SOps {
        str: |s| out(T::parse_str(s)),
        string: |s| out(T::parse_string(s.to_string())),
        validate: |s| out(T::validate_str(s)),
        #[cfg(feature = "wrap")]
        wrap: crate::wrap::strs::<T, E>(),
    }
}
pub fn bops<T: ValidateBytes<Error = E> + Debug, E: Fails>() -> BOps {
    BOps {
        slice: |s| out(T::parse_u8_slice(s)),
        vec: |s| out(T::parse_vec_u8(s.to_vec())),
        validate: |s| out(T::validate_u8_slice(s)),
        #[cfg(feature = "wrap")]
        wrap: crate::wrap::bytes::<T, E>(),
    }
}
pub fn cops<T: ValidateChar<Error = E> + Debug, E: Fails>() -> fn(char) -> Pair {
    |x| (out(T::parse_char(x)), out(T::validate_char(x)))
}
pub fn oops<T: ValidateBoolean<Error = E> + Debug, E: Fails>() -> fn(bool) -> Pair {
    |x| (out(T::parse_bool(x)), out(T::validate_bool(x)))
}
pub fn jops<T: ValidateJsonValue<Error = E> + Debug, E: Fails>() -> fn(serde_json::Value) -> Pair {
    |x| (out(T::parse_json_value(x.clone())), out(T::validate_json_value(x)))
}
pub fn nops<T: ValidateNumber<Error = E> + Debug, E: Fails>() -> (fn(f64) -> Pair, fn(f32) -> Pair) {
    (|x| (out(T::parse_f64(x)), out(T::validate_f64(x))), |x| (out(T::parse_f32(x)), out(T::validate_f32(x))))
}
