//! Phone validators for every country and for sets of countries.
use std::fmt::Write;

const COUNTRIES: &str = "AC AD AE AF AG AI AL AM AO AR AS AT AU AW AX AZ BA BB BD BE BF BG BH BI BJ BL BM BN BO BQ BR BS BT BW BY BZ CA CC CD CF CG CH CI CK CL CM CN CO CR CU CV CW CX CY CZ DE DJ DK DM DO DZ EC EE EG EH ER ES ET FI FJ FK FM FO FR GA GB GD GE GF GG GH GI GL GM GN GP GQ GR GT GU GW GY HK HN HR HT HU ID IE IL IM IN IO IQ IR IS IT JE JM JO JP KE KG KH KI KM KN KP KR KW KY KZ LA LB LC LI LK LR LS LT LU LV LY MA MC MD ME MF MG MH MK ML MM MN MO MP MQ MR MS MT MU MV MW MX MY MZ NA NC NE NF NG NI NL NO NP NR NU NZ OM PA PE PF PG PH PK PL PM PR PS PT PW PY QA RE RO RS RU RW SA SB SC SD SE SG SH SI SJ SK SL SM SN SO SR SS ST SV SX SY SZ TA TC TD TG TH TJ TK TL TM TN TO TR TT TV TW TZ UA UG US UY UZ VA VC VE VG VI VN VU WF WS XK YE YT ZA ZM ZW";
/// Sets with shared calling codes, shared national notations and nothing in common.
const SETS: &[&str] = &["US CA", "CA US", "JP US", "US RU", "RU KZ", "FI JP SG TH", "GB GG JE IM", "IT VA", "NO SJ", "TW JP", "DE AT CH", "FR GP RE", "AU CC CX", "US CA BS BB JM", "CN HK MO TW", "MA EH", "FI AX", "TW US GB DE JP KR CN IN BR ZA"];

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    let mut s = String::new();
    let mut table = String::from("pub fn cfgs() -> Vec<Cfg> { vec![\n");
    if std::env::var("CARGO_FEATURE_PHONE").is_ok() {
        let mut emit = |i: usize, attr: &str, ids: &[&str]| {
            let ty = if ids.len() > 1 { "std::collections::HashMap<Id, PhoneNumber>" } else { "PhoneNumber" };
            let _ = writeln!(s, "#[derive(Validator)]\n#[validator({attr})]\npub struct P{i}(pub {ty});\nimpl Holds for P{i} {{ fn get(self) -> Entries {{ self.0.entries() }} }}");
            let ids: Vec<String> = ids.iter().map(|c| format!("Id::{c}")).collect();
            let _ = writeln!(table, "Cfg {{ name: {attr:?}, ids: vec![{}], ops: ops::<P{i}>() }},", ids.join(", "));
        };
        emit(0, "phone", &[]);
        emit(1, "phone()", &[]);
        let mut n = 2;
        for c in COUNTRIES.split(' ') {
            emit(n, &format!("phone(countries({c}))"), &[c]);
            n += 1;
        }
        for set in SETS {
            let ids: Vec<&str> = set.split(' ').collect();
            emit(n, &format!("phone(countries({}))", ids.join(", ")), &ids);
            n += 1;
        }
    }
    table.push_str("] }\n");
    std::fs::write(format!("{}/phone.rs", std::env::var("OUT_DIR").unwrap()), s + &table).unwrap();
}
