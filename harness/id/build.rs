//! Instantiates mac_address and uuid validators for every ASCII separator that is not a hexadecimal digit.
use std::fmt::Write;

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    let mut s = String::new();
    for (f, v, ty, groups, to, t) in [("macs_all", "mac_address", "u64", "MAC", "to_mac_address_string", 'A'), ("uuids_all", "uuid", "u128", "UUID", "to_uuid_string", 'B')] {
        let _ = writeln!(s, "cfgs! {{ {f} {v} {ty}, {groups}, {to};");
        let seps = (0..128u8).filter(|b| !b.is_ascii_hexdigit());
        for (i, b) in seps.enumerate() {
            let (c, d) = [("Any", "Lower"), ("Upper", "Any"), ("Lower", "Upper")][i % 3];
            let _ = writeln!(s, "{t}M{b} {c} Must(b'\\x{b:02x}'); {t}A{b} {d} Allow(b'\\x{b:02x}');");
        }
        s.push_str("}\n");
    }
    std::fs::write(format!("{}/all.rs", std::env::var("OUT_DIR").unwrap()), s).unwrap();
}
