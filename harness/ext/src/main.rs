//! C26 delegating validators, C27 phone.
#[cfg(feature = "deleg")]
mod deleg;
#[cfg(feature = "phone")]
mod phone;

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    engine::Run::main(&id, |run| match id.as_str() {
        #[cfg(feature = "deleg")]
        "C26" => deleg::explore(run),
        #[cfg(feature = "phone")]
        "C27" => phone::explore(run),
        _ => panic!("unknown property {}", run.thorough),
    })
}
