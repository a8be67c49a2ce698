//! C10, C11 (line and text), C12 (length).
#[cfg(feature = "length")]
mod length;
#[cfg(feature = "utf8")]
mod utf8;

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    engine::Run::main(&id, |run| match id.as_str() {
        #[cfg(feature = "utf8")]
        "C10" => utf8::c10(run),
        #[cfg(feature = "utf8")]
        "C11" => utf8::c11(run),
        #[cfg(feature = "length")]
        "C12" => length::c12(run),
        _ => panic!("unknown property"),
    })
}
