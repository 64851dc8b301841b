//! P07: checksum validators accept exactly the numbers their standards accept.
use super::sym;
use dd_sds::*;

fn valid(v: SecondaryValidator, s: &str) -> bool {
    v.is_valid_match(s)
}
/// Digits of a number written as  fixed prefix, `n` symbolic characters, fixed suffix.  Params: total
/// digits, prefix digits, symbolic characters, width (0: only digits; else any character of that
/// width or less, non-digits being ignored by the validators).
fn number(base: &str, first: u32) -> (String, Vec<u32>) {
    let (total, f, n, maxw) = (sym::param(first), sym::param(first + 1), sym::param(first + 2), sym::param(first + 3));
    let mid = if maxw == 0 { sym::ascii_of(n, "d", |c| (c >= b'0') & (c <= b'9')) } else { sym::text(n, maxw, "c") };
    let pre = &base[..f];
    let post = if f + n < total { &base[f + n..total] } else { "" };
    let mut d: Vec<u32> = pre.bytes().map(|b| (b - 48) as u32).collect();
    for c in mid.chars() {
        let x = c as u32;
        if maxw == 0 || (x >= 48) & (x <= 57) {
            d.push(x - 48);
        }
    }
    d.extend(post.bytes().map(|b| (b - 48) as u32));
    (pre.to_string() + &mid + post, d)
}
/// Luhn: from the right, double every second digit (adding the two digits of the product); the
/// total must be a multiple of ten.
pub fn p07_luhn() {
    let (s, d) = number("4012888888881881357", 0);
    let got = valid(SecondaryValidator::LuhnChecksum, &s);
    let mut total = 0;
    for (i, x) in d.iter().rev().enumerate().skip(1) {
        total += if i % 2 == 0 { *x } else { 2 * x / 10 + 2 * x % 10 };
    }
    let want = !d.is_empty() && (total % 10 + d[d.len() - 1]) % 10 == 0;
    sym::check(got == want, 1);
    sym::cover_if(got, 1);
    sym::cover_if(!got, 2);
}
/// Chinese resident id: exactly 18 ASCII characters, 17 digits and a check character (ISO 7064 MOD
/// 11-2, X for ten, either case). params: fixed leading digits, symbolic characters after them
pub fn p07_chinese() {
    let f = sym::param(0);
    let n = sym::param(1);
    let mut s = "110105194912310024"[..f].to_string();
    s.push_str(&sym::ascii(n, "c"));
    let got = valid(SecondaryValidator::ChineseIdChecksum, &s);
    let b = s.as_bytes();
    let mut ok = b.len() == 18;
    if ok {
        let mut sum = 0u32;
        for i in 0..17 {
            ok &= (b[i] >= b'0') & (b[i] <= b'9');
            // weight 2^(17-i) mod 11
            sum += ((1u32 << (17 - i)) % 11) * (b[i].wrapping_sub(b'0') as u32);
        }
        let last = b[17];
        let digit = (last >= b'0') & (last <= b'9');
        let ten = (last == b'X') | (last == b'x');
        let v = if ten { 10 } else { last.wrapping_sub(b'0') as u32 };
        ok &= digit | ten;
        ok &= (sum % 11 + v) % 11 == 1;
    }
    sym::check(got == ok, 1);
    sym::cover_if(got, 1);
    sym::cover_if(!got, 2);
}
/// NIR: exactly 15 digits (other characters ignored), key = 97 - number mod 97.
pub fn p07_nir() {
    let (s, d) = number("151024610204325", 0);
    let got = valid(SecondaryValidator::NirChecksum, &s);
    let mut ok = d.len() == 15;
    if ok {
        let mut v = 0u64;
        for x in &d[..13] {
            v = v * 10 + *x as u64;
        }
        let key = (d[13] * 10 + d[14]) as u64;
        ok = key + v % 97 == 97;
    }
    sym::check(got == ok, 1);
    sym::cover_if(got, 1);
    sym::cover_if(!got, 2);
}
/// NHS number: exactly ten digits (other characters ignored), weights 10..2, check digit
/// 11 - (sum mod 11), 11 -> 0, 10 invalid.
pub fn p07_nhs() {
    let (s, d) = number("907784444912", 0);
    let got = valid(SecondaryValidator::NhsCheckDigit, &s);
    let mut ok = d.len() == 10;
    if ok {
        let mut sum = 0;
        for (i, x) in d[..9].iter().enumerate() {
            sum += x * (10 - i as u32);
        }
        ok = (sum + d[9]) % 11 == 0;
    }
    sym::check(got == ok, 1);
    sym::cover_if(got, 1);
    sym::cover_if(!got, 2);
}
/// A rule with a validator reports exactly the candidates the validator accepts (Luhn on 4 digits).
/// params: digits in the text
pub fn p07_scan() {
    let n = sym::param(0);
    let t = sym::ascii_of(n, "d", |c| (c >= b'0') & (c <= b'9'));
    let s = t + " x";
    let scanner = ScannerBuilder::new(&[RegexRuleConfig::new("[0-9]{4}").validator(SecondaryValidator::LuhnChecksum).build()]).build().unwrap();
    let mut ev = s.clone();
    let got = scanner.scan(&mut ev, vec![]);
    let b = s.as_bytes();
    let ok = |i: usize| {
        let d = |j: usize| (b[i + j] - 48) as u32;
        let dbl = |x: u32| 2 * x / 10 + 2 * x % 10;
        (d(3) + dbl(d(2)) + d(1) + dbl(d(0))) % 10 == 0
    };
    let mut i = 0;
    let mut k = 0;
    while i + 4 <= n {
        if ok(i) {
            sym::check(k < got.len(), 1);
            sym::check(got[k].start_index == i, 2);
            sym::check(got[k].end_index_exclusive == i + 4, 3);
            k += 1;
            i += 4;
        } else {
            i += 1;
        }
    }
    sym::check(k == got.len(), 4);
    sym::cover_if(k == 1, 1);
    sym::cover_if(k == 0, 2);
}
