//! What is explored for each family of validators.
use crate::ops::Fam;
pub struct Words {
    pub roots: &'static [&'static str],
    pub tokens: &'static [&'static str],
    /// accepted words, to be edited
    pub good: &'static [&'static str],
}
pub fn words(f: Fam) -> Words {
    match f {
        Fam::B32 => Words { roots: &["", "MZXW6YTB"], tokens: &["M", "A", "7", "a", "1", "=", "====", "MZXW6===", " ", "é"], good: &["MZXW6YTB", "MY======", "MZXQ====", "MZXW6YQ=", "MZXW6", ""] },
        Fam::B64 => Words { roots: &["", "Zm9v"], tokens: &["Z", "A", "g", "+", "/", "-", "=", "==", "Zg==", "é"], good: &["Zm9vYmFy", "Zg==", "Zm8=", "Zg", "+/+/", ""] },
        Fam::B64U => Words { roots: &["", "Zm9v"], tokens: &["Z", "A", "g", "-", "_", "+", "=", "==", "Zg==", "é"], good: &["Zm9vYmFy", "Zg==", "Zm8=", "Zg", "-_-_", ""] },
        Fam::Size => Words { roots: &["", "9", "1000"], tokens: &["0", "1", "9", ".", ".5", " ", "k", "K", "M", "i", "b", "B", "it", "E", "-", "99999999", "é"], good: &["123", "1.5 MiB", "64 kbit", "8B", "18446744073709551615", "1 Mib", "999 k"] },
        Fam::Bool => Words { roots: &["", "t", "f"], tokens: &["t", "f", "true", "false", "T", "TRUE", "False", "y", "n", "yes", "no", "on", "off", "0", "1", " ", "é"], good: &["true", "FALSE", "y", "No", "on", "off", "0", "1", "t"] },
        Fam::Net => Words { roots: &["", "[", "1.2.3.", "a.", "["], tokens: &["a", "com", "-", "_", ".", "1", "0", "256", ":", "::", "[", "]", "80", "65536", "127.0.0.1", "10.1.2.3", "localhost", "::1", "fe80::1", "xn--", "é", "%"], good: &["magiclen.org", "magiclen.org.:8080", "localhost", "127.0.0.1:80", "168.17.212.1", "[::1]:65535", "::ffff:1.2.3.4", "[2001:db8::1]", "中文.com:1", "a_b.c-d.e"] },
        Fam::Mail => Words { roots: &["", "a@", "\"", "(c)"], tokens: &["a", ".", "@", "\"", "\\", "(", ")", " ", "(c)", "a@", "@b.c", "b.c", "[", "]", "1.2.3.4", "IPv6:::1", "localhost", "-", "é"], good: &["len@magiclen.org", "\"a b\"@magiclen.org", "(a)len(b)@(c)magiclen.org(d)", "a.b+c@[1.2.3.4]", "a@[IPv6:::1]", "é@中文.com", "a@localhost", "x@127.0.0.1"] },
        Fam::Url => Words { roots: &["", "http://", "HTTPS://", "ftp://"], tokens: &["http:", "https:", "ftp:", "/", "//", ":", "a", "b.c", "@", "?", "#", "%", "[::1]", "127.0.0.1", "10.0.0.1", "localhost", "80", " ", "é"], good: &["https://magiclen.org/a?b#c", "http://127.0.0.1:80", "ftp://u:p@a.b/", "http://[::1]/", "mailto:a@b", "HTTP://LOCALHOST"] },
        Fam::Json => Words { roots: &["", "[", "{\"a\":", "\""], tokens: &["0", "1", "-", ".5", "e9", "[", "]", "{", "}", "\"", ",", ":", "\"a\"", "true", "null", " ", "\\u00e9", "\n", "é"], good: &["\"abc\"", "{\"a\":1,\"b\":2}", "-12", "true", "null", "2147483647", "2147483648", "1.5", "[1,\"x\",null]", " 7 "] },
        Fam::Text => Words { roots: &["", " ", "a"], tokens: &["a", "é", "𝔸", " ", "\u{3000}", "\n", "\r", "\t", "\u{b}", "\u{0}", "\u{7f}", "\u{80}"], good: &["aaa", " a ", "aé\n", "\t", "𝔸a"] },
        Fam::Mac => Words { roots: &["", "01:23:45:", "012345", "0a-1b-"], tokens: &["0", "a", "F", "1e", ":", "-", "23:45:67", "é"], good: &["01:23:45:67:ab:cd", "01-23-45-67-AB-CD", "01234567abcd", "01234567ABCD", "012345-67aB-cd"] },
        Fam::Uuid => Words { roots: &["", "01234567-", "01234567:89ab:"], tokens: &["0", "a", "F", "01ef", ":", "-", "-0123", "89ab", "01234567", "é"], good: &["01234567-89ab-cdef-0123-456789abcdef", "01234567:89AB:CDEF:0123:456789ABCDEF", "0123456789abcdef0123456789abcdef", "0123456789ABCDEF0123456789ABCDEF", "01234567-89abcdef0123456789abcdef"] },
        Fam::Num => Words { roots: &["", "-", "1"], tokens: &["0", "1", "9", ".", "e", "E", "-", "+", "nan", "NaN", "inf", "infinity", "999", "_", " ", "é"], good: &["1.5", "-1.5", "100.25", "100.2500001", "1e308", "1e400", "NaN", "-inf", "2.5", "0", "-0"] },
        Fam::Phone => Words { roots: &["", "+886", "+1", "09"], tokens: &["0", "9", "12345", "650253", "650-", " ", "+", "-", "(", ")", "ext", "é"], good: &["+16502530000", "0912345678", "+886912345678", "tel:+16502530000", "(650) 253-0000", "+1 650-253-0000 ext. 123"] },
        Fam::Semver => Words { roots: &["", "1.2.", ">=1"], tokens: &["0", "1", "01", ".", "-", "+", "a", "*", "x", ">", "=", "<", "^", "~", ",", " ", "18446744073709551616", "é"], good: &["1.2.3", "1.2.3-alpha.1+build.5", ">=1.2, <2", "^0.1", "*", "~1", "1"] },
        Fam::Int => Words { roots: &["", "-", "+", "99999999999"], tokens: &["0", "1", "7", "128", "32768", "-", "+", "2147483648", "9223372036854775808", "_", " ", "é"], good: &["127", "128", "-128", "-129", "65535", "65536", "+5", "170141183460469231731687303715884105727", "-170141183460469231731687303715884105728", "340282366920938463463374607431768211455", "18446744073709551616", "300", "-300", "10"] },
    }
}
