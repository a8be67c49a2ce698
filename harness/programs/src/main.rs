mod c25;
mod c28;
mod c30;
mod inputs;
mod model;
mod rust;
#[path = "../../agree/src/spaces.rs"]
mod spaces;
mod ops {
    #[derive(Clone, Copy, PartialEq, Debug)]
    pub enum Fam {
        B32,
        B64,
        B64U,
        Size,
        Bool,
        Net,
        Mail,
        Url,
        Json,
        Text,
        Mac,
        Num,
        Phone,
        Semver,
        Int,
        Uuid,
    }
}
use engine::Run;
fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    match id.as_str() {
        "C25" => Run::main("C25", c25::c25),
        "C28" => Run::main("C28", c28::c28),
        "C30" => Run::main("C30", c30::c30),
        _ => panic!("unknown property"),
    }
}
