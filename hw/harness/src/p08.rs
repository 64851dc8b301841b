//! P08: token validators (GitHub token, IBAN, JWT expiry).
use super::common::*;
use super::sym;
use dd_sds::*;

fn crc32(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xedb88320 } else { c >> 1 };
        }
    }
    !c
}
fn base62_6(mut n: u32) -> [u8; 6] {
    let mut out = [b'0'; 6];
    for i in (0..6).rev() {
        out[i] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"[(n % 62) as usize];
        n /= 62;
    }
    out
}
const PAYLOADS: [&str; 8] = ["0", "a", "A7", PAD1, PAD2, PAD3, "0123456789", "M7H4jxUDDWHP4kZ6A4dxlQYsQIWJuq"];
const PAD1: &str = "2";
const PAD2: &str = "62";
const PAD3: &str = "22au";
/// Token = symbolic prefix + payload + symbolic tail. The payload is one of a list (including
/// ones whose checksum needs leading zeros) or one symbolic character, case split.
/// params: prefix characters, prefix width, tail characters, tail width, mode (0: listed payloads, 1: one symbolic character)
pub fn p08_github() {
    let (np, wp, nt, wt, mode) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3), sym::param(4));
    let pre = sym::text(np, wp, "prefix");
    let payload = if mode == 0 {
        PAYLOADS[sym::choose("payload", PAYLOADS.len())].to_string()
    } else {
        let c = sym::u8("p");
        sym::assume(c < 0x80);
        (sym::conc(c as usize) as u8 as char).to_string()
    };
    let tail = sym::text(nt, wt, "tail");
    let token = pre + &payload + &tail;
    let got = SecondaryValidator::GithubTokenChecksum.is_valid_match(&token);
    let c: Vec<char> = token.chars().collect();
    // after the last '_': letters and digits only, more than six
    let want = match c.iter().rposition(|x| *x == '_') {
        None => false,
        Some(p) => {
            let t = &c[p + 1..];
            if t.len() <= 6 || !t.iter().all(|x| x.is_ascii_alphanumeric()) {
                false
            } else {
                let body: Vec<u8> = t[..t.len() - 6].iter().map(|x| *x as u8).collect();
                let sum = base62_6(crc32(&body));
                let mut ok = true;
                for i in 0..6 {
                    ok &= t[t.len() - 6 + i] as u32 == sum[i] as u32;
                }
                ok
            }
        }
    };
    sym::check(got == want, 1);
    sym::cover_if(got, 1);
    sym::cover_if(!got, 2);
}
/// Whole token after the separator symbolic; checksum of the symbolic payload by the table-driven
/// reference library. params: payload characters
pub fn p08_github_free() {
    let n = sym::param(0);
    let t = sym::ascii_of(n + 6, "t", |c| ((c >= b'0') & (c <= b'9')) | ((c >= b'a') & (c <= b'z')) | ((c >= b'A') & (c <= b'Z')));
    let got = SecondaryValidator::GithubTokenChecksum.is_valid_match(&("ghp_".to_string() + &t));
    let crc = crc32fast::hash(t[..n].as_bytes());
    let mut v = 0u64;
    for c in t[n..].bytes() {
        let d = if c <= b'9' { c - b'0' } else if c <= b'Z' { c - b'A' + 10 } else { c - b'a' + 36 };
        v = v * 62 + d as u64;
    }
    sym::check(got == (v == crc as u64), 1);
    sym::cover_if(got, 1);
    sym::cover_if(!got, 2);
}
const IBANS: [(&str, &[u8]); 4] = [
    // country and BBAN structure: n digits, a upper-case letters, c either
    ("NO9386011117947", b"nnnnnnnnnnn"),
    ("GB29NWBK60161331926819", b"aaaannnnnnnnnnnnnn"),
    ("KZ86125KZT5004100100", b"nnnccccccccccccc"),
    ("BE68539007547034", b"nnnnnnnnnnnn"),
];
/// A valid IBAN with a symbolic window: `sym` characters replaced by `k` symbolic ones.
/// params: iban, window start, window length, symbolic characters, max width
pub fn p08_iban() {
    let (w, at, len, k, maxw) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3), sym::param(4));
    let (base, format) = IBANS[w];
    let mid = if maxw == 0 { sym::ascii_of(k, "d", |c| (c >= b'0') & (c <= b'9')) } else { sym::text(k, maxw, "c") };
    let text = base[..at].to_string() + &mid + &base[at + len..];
    let got = SecondaryValidator::IbanChecker.is_valid_match(&text);
    // separators (anything that is neither a letter nor a digit) are ignored
    let c: Vec<char> = text.chars().filter(|c| c.is_alphanumeric()).collect();
    let country = base.as_bytes();
    let mut want = c.len() == base.len() && c[0] as u32 == country[0] as u32 && c[1] as u32 == country[1] as u32;
    if want {
        let up = |x: char| -> u32 {
            let u = x as u32;
            if (u >= 97) & (u <= 122) {
                u - 32
            } else {
                u
            }
        };
        let mut acc = 0u32;
        let mut ok = true;
        for i in (4..c.len()).chain(0..4) {
            let u = up(c[i]);
            let digit = (u >= 48) & (u <= 57);
            let letter = (u >= 65) & (u <= 90);
            let kind = match i {
                0 | 1 => b'a',
                2 | 3 => b'n',
                _ => format[i - 4],
            };
            ok &= match kind {
                b'n' => digit,
                b'a' => letter,
                _ => digit | letter,
            };
            if !ok {
                break;
            }
            acc = if digit { acc * 10 + (u - 48) } else { acc * 100 + (u - 55) } % 97;
        }
        // check digits 00 and 01 are not issued
        want = ok && (acc == 1) & !((c[2] == '0') & ((c[3] == '0') | (c[3] == '1')));
    }
    sym::check(got == want, 1);
    sym::cover_if(got, 1);
    sym::cover_if(!got, 2);
}
const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
fn b64(b: &[u8]) -> String {
    let mut out = vec![];
    for ch in b.chunks(3) {
        let v = [ch[0], if ch.len() > 1 { ch[1] } else { 0 }, if ch.len() > 2 { ch[2] } else { 0 }];
        let x = (v[0] as u32) << 16 | (v[1] as u32) << 8 | v[2] as u32;
        for i in 0..ch.len() + 1 {
            out.push(B64[(x >> (18 - 6 * i)) as usize & 63]);
        }
    }
    String::from_utf8(out).unwrap()
}
/// {"exp":<digits>} against several clock values. params: symbolic digits, mode (0: plain, 1: negative,
/// 2: fraction ".0" appended, 3: quoted, 4: other claim name, 5: around the current time, 6: around the
/// largest 64-bit integer)
pub fn p08_jwt_exp() {
    let (n, mode) = (sym::param(0), sym::param(1));
    let d = sym::ascii_of(n, "exp", |c| (c >= b'0') & (c <= b'9'));
    // a few instants (every expiry is tried against each): epoch, leap day, 2023, after 2038, after 2106
    let now = [0u64, 951_782_399, 1_700_000_000, 2_147_483_648, 4_294_967_296][sym::choose("now", 5)];
    let nanos = [0, 999_999_999][sym::choose("nanos", 2)];
    let lead = match mode {
        5 if now > 0 => {
            let f = now.to_string();
            f[..f.len() - n].to_string()
        }
        6 => {
            let f = i64::MAX.to_string();
            f[..f.len() - n].to_string()
        }
        _ => {
            sym::assume(n == 1 || d.as_bytes()[0] != b'0');
            String::new()
        }
    };
    if mode == 5 && now == 0 {
        sym::assume(n == 1 || d.as_bytes()[0] != b'0');
    }
    let d = lead + &d;
    let mut v: u64 = 0;
    for c in d.bytes() {
        v = v.wrapping_mul(10).wrapping_add((c - b'0') as u64);
    }
    let (body, want) = match mode {
        0 | 5 | 6 => (format!("{{\"exp\":{}}}", d), (v > now) & (v <= i64::MAX as u64)),
        1 => (format!("{{\"exp\":-{}}}", d), false),
        // not an integer
        2 => (format!("{{\"exp\":99{}0000000.0}}", sym::conc(d.as_bytes()[0] as usize) as u8 as char), false),
        3 => (format!("{{\"exp\":\"{}\"}}", d), false),
        _ => (format!("{{\"nbf\":{}}}", d), true),
    };
    let token = "e30.".to_string() + &b64(body.as_bytes()) + ".sig";
    sym::clock(now, nanos);
    let got = SecondaryValidator::JwtExpirationChecker.is_valid_match(&token);
    sym::check(got == want, 1);
    sym::cover_if(got, 1);
    sym::cover_if(!got, 2);
}
/// Token structure: three dot-separated parts of which the first two are unpadded URL-safe base64 of
/// JSON. params: mode, symbolic characters
pub fn p08_jwt_shape() {
    let (mode, n) = (sym::param(0), sym::param(1));
    sym::clock(1_700_000_000, 0);
    let x = sym::ascii(n, "x");
    let b = x.as_bytes();
    let mut val = vec![];
    let mut ok = n % 4 != 1;
    for c in b {
        match B64.iter().position(|y| y == c) {
            Some(p) => val.push(p as u32),
            None => ok = false,
        }
    }
    let mut dec = vec![];
    if ok {
        let mut acc = 0;
        let mut bits = 0;
        for v in &val {
            acc = acc << 6 | v;
            bits += 6;
            if bits >= 8 {
                bits -= 8;
                dec.push((acc >> bits) as u8);
                acc &= (1 << bits) - 1;
            }
        }
        // non-zero left-over bits are refused
        ok = acc == 0;
    }
    let json = ok && serde_json::from_slice::<serde_json::Value>(&dec).is_ok();
    let (token, want) = match mode {
        // header
        0 => (x.clone() + ".e30.s", json),
        // payload (too short to contain an expiry)
        1 => ("e30.".to_string() + &x + ".s", json),
        // signature: anything without a dot
        2 => ("e30.e30.".to_string() + &x, !b.contains(&b'.')),
        // no signature
        _ => ("e30.e30".to_string() + &x, {
            // a single dot right after the two segments, or the payload continues
            n > 0 && b[0] == b'.' && !b[1..].contains(&b'.')
        }),
    };
    if mode == 3 && n > 0 {
        sym::assume(b[0] == b'.');
    }
    let got = SecondaryValidator::JwtExpirationChecker.is_valid_match(&token);
    sym::check(got == want, 1);
    sym::cover_if(got, 1);
    sym::cover_if(!got, 2);
}
