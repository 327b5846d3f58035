//! Linear bar codes: tables of the symbologies from their standards, readers
//! that turn modules back into data, and encoders for the model.

/// Lengths of the runs of equal modules, the first one is a bar
pub fn runs(m: &[u8]) -> Result<Vec<usize>, String> {
    if m.first() != Some(&1) || m.last() != Some(&1) {
        return Err("does not start and end with a bar".into());
    }
    let mut v: Vec<usize> = vec![];
    let mut last = 0;
    for b in m {
        if *b == last && !v.is_empty() {
            *v.last_mut().unwrap() += 1;
        } else {
            v.push(1);
            last = *b;
        }
    }
    Ok(v)
}

fn bits(n: u32, len: usize) -> Vec<u8> {
    (0..len).rev().map(|i| (n >> i & 1) as u8).collect()
}

// ---------------------------------------------------------------- EAN / UPC

/// Left odd parity patterns
const EAN_L: [u32; 10] = [0b0001101, 0b0011001, 0b0010011, 0b0111101, 0b0100011, 0b0110001, 0b0101111, 0b0111011, 0b0110111, 0b0001011];
/// first digit of EAN 13: which of the six left digits have even parity
const EAN_FIRST: [u32; 10] = [0b000000, 0b001011, 0b001101, 0b001110, 0b010011, 0b011001, 0b011100, 0b010101, 0b010110, 0b011010];
/// check digit of UPC E number system 0: which digits have even parity
const UPCE_PARITY: [u32; 10] = [0b111000, 0b110100, 0b110010, 0b110001, 0b101100, 0b100110, 0b100011, 0b101010, 0b101001, 0b100101];

fn rev7(n: u32) -> u32 {
    (0..7).fold(0, |a, i| a << 1 | (n >> i & 1))
}

fn num(m: &[u8]) -> u32 {
    m.iter().fold(0, |a, b| a << 1 | *b as u32)
}

/// digit and whether it has even parity
fn left(m: &[u8]) -> Result<(u8, bool), String> {
    let n = num(m);
    for d in 0..10 {
        if EAN_L[d] == n {
            return Ok((d as u8, false));
        }
        if rev7(!EAN_L[d] & 127) == n {
            return Ok((d as u8, true));
        }
    }
    Err(format!("no digit on the left side: {:07b}", n))
}

fn right(m: &[u8]) -> Result<u8, String> {
    let n = num(m);
    (0..10).find(|d| !EAN_L[*d as usize] & 127 == n).ok_or(format!("no digit on the right side: {:07b}", n))
}

fn expect(m: &[u8], at: usize, want: &[u8]) -> Result<(), String> {
    if m.get(at..at + want.len()) != Some(want) {
        return Err(format!("guard at {} is missing", at));
    }
    Ok(())
}

/// Check digit of a number without it, for all EAN and UPC numbers
pub fn check_digit(d: &[u8]) -> u8 {
    let s: u32 = d.iter().rev().enumerate().map(|(i, x)| *x as u32 * if i % 2 == 0 { 3 } else { 1 }).sum();
    ((10 - s % 10) % 10) as u8
}

fn checked(d: Vec<u8>) -> Result<Vec<u8>, String> {
    let n = d.len() - 1;
    if check_digit(&d[..n]) != d[n] {
        return Err(format!("check digit of {:?} is wrong", d));
    }
    Ok(d)
}

/// All 13 digits
pub fn read_ean13(m: &[u8]) -> Result<Vec<u8>, String> {
    if m.len() != 95 {
        return Err(format!("{} modules", m.len()));
    }
    expect(m, 0, &[1, 0, 1])?;
    expect(m, 45, &[0, 1, 0, 1, 0])?;
    expect(m, 92, &[1, 0, 1])?;
    let (mut parity, mut d) = (0, vec![0]);
    for i in 0..6 {
        let (x, even) = left(&m[3 + i * 7..10 + i * 7])?;
        parity = parity << 1 | even as u32;
        d.push(x);
    }
    d[0] = EAN_FIRST.iter().position(|p| *p == parity).ok_or("parity of the left side")? as u8;
    for i in 0..6 {
        d.push(right(&m[50 + i * 7..57 + i * 7])?);
    }
    checked(d)
}

pub fn read_ean8(m: &[u8]) -> Result<Vec<u8>, String> {
    if m.len() != 67 {
        return Err(format!("{} modules", m.len()));
    }
    expect(m, 0, &[1, 0, 1])?;
    expect(m, 31, &[0, 1, 0, 1, 0])?;
    expect(m, 64, &[1, 0, 1])?;
    let mut d = vec![];
    for i in 0..4 {
        let (x, even) = left(&m[3 + i * 7..10 + i * 7])?;
        if even {
            return Err("even parity in EAN 8".into());
        }
        d.push(x);
    }
    for i in 0..4 {
        d.push(right(&m[36 + i * 7..43 + i * 7])?);
    }
    checked(d)
}

/// Number system, six digits and check digit
pub fn read_upce(m: &[u8]) -> Result<Vec<u8>, String> {
    if m.len() != 51 {
        return Err(format!("{} modules", m.len()));
    }
    expect(m, 0, &[1, 0, 1])?;
    expect(m, 45, &[0, 1, 0, 1, 0, 1])?;
    let (mut parity, mut d) = (0, vec![0]);
    for i in 0..6 {
        let (x, even) = left(&m[3 + i * 7..10 + i * 7])?;
        parity = parity << 1 | even as u32;
        d.push(x);
    }
    for c in 0..10 {
        if UPCE_PARITY[c] == parity {
            d.push(c as u8);
            return Ok(d);
        }
        if !UPCE_PARITY[c] & 63 == parity {
            d[0] = 1;
            d.push(c as u8);
            return Ok(d);
        }
    }
    Err("parity of UPC E".into())
}

/// The eleven digits of the UPC A number of number system + six digits
pub fn upce_expand(d: &[u8]) -> Vec<u8> {
    let (n, p) = (d[0], &d[1..7]);
    let mut v = vec![n];
    match p[5] {
        0..=2 => v.extend([p[0], p[1], p[5], 0, 0, 0, 0, p[2], p[3], p[4]]),
        3 => v.extend([p[0], p[1], p[2], 0, 0, 0, 0, 0, p[3], p[4]]),
        4 => v.extend([p[0], p[1], p[2], p[3], 0, 0, 0, 0, 0, p[4]]),
        _ => v.extend([p[0], p[1], p[2], p[3], p[4], 0, 0, 0, 0, p[5]]),
    }
    v
}

/// The six digits of a UPC A number that can be written as UPC E
pub fn upce_compress(a: &[u8]) -> Option<Vec<u8>> {
    let (m, p) = (&a[1..6], &a[6..11]);
    if m[3] == 0 && m[4] == 0 && m[2] <= 2 {
        if p[0] == 0 && p[1] == 0 {
            return Some(vec![m[0], m[1], p[2], p[3], p[4], m[2]]);
        }
    } else if m[3] == 0 && m[4] == 0 {
        if p[..3] == [0, 0, 0] {
            return Some(vec![m[0], m[1], m[2], p[3], p[4], 3]);
        }
    } else if m[4] == 0 {
        if p[..4] == [0, 0, 0, 0] {
            return Some(vec![m[0], m[1], m[2], m[3], p[4], 4]);
        }
    } else if p[..4] == [0, 0, 0, 0] && p[4] >= 5 {
        return Some(vec![m[0], m[1], m[2], m[3], m[4], p[4]]);
    }
    None
}

/// number system, six digits, check digit of data sent for a UPC E code
pub fn upce_digits(s: &str) -> Option<Vec<u8>> {
    if !s.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let mut d: Vec<u8> = s.bytes().map(|b| b - 48).collect();
    let (a, check) = match d.len() {
        6..=8 => {
            if d.len() == 6 {
                d.insert(0, 0);
            }
            let a = upce_expand(&d);
            let c = d.get(7).copied().unwrap_or_else(|| check_digit(&a));
            (a, c)
        }
        11 | 12 => {
            let c = d.get(11).copied().unwrap_or_else(|| check_digit(&d[..11]));
            (d[..11].to_vec(), c)
        }
        _ => return None,
    };
    if a[0] > 1 {
        return None;
    }
    let mut v = vec![a[0]];
    v.extend(upce_compress(&a)?);
    v.push(check);
    Some(v)
}

pub fn upce_encode(s: &str) -> Option<Vec<u8>> {
    let d = upce_digits(s)?;
    let parity = UPCE_PARITY[d[7] as usize] ^ if d[0] == 1 { 63 } else { 0 };
    let mut m = vec![1, 0, 1];
    for i in 0..6 {
        let l = EAN_L[d[1 + i] as usize];
        m.extend(bits(if parity >> (5 - i) & 1 == 1 { rev7(!l & 127) } else { l }, 7));
    }
    m.extend([0, 1, 0, 1, 0, 1]);
    Some(m)
}

// ---------------------------------------------------------------- Code 39

const C39: &str = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%*";
/// which of the nine elements of a character are wide
const C39_WIDE: [u32; 44] = [
    0x034, 0x121, 0x061, 0x160, 0x031, 0x130, 0x070, 0x025, 0x124, 0x064, 0x109, 0x049, 0x148, 0x019, 0x118, 0x058,
    0x00D, 0x10C, 0x04C, 0x01C, 0x103, 0x043, 0x142, 0x013, 0x112, 0x052, 0x007, 0x106, 0x046, 0x016, 0x181, 0x0C1,
    0x1C0, 0x091, 0x190, 0x0D0, 0x085, 0x184, 0x0C4, 0x0A8, 0x0A2, 0x08A, 0x02A, 0x094,
];

/// Wide elements are those longer than a narrow one, which are all alike
fn wide(r: &[usize]) -> Result<u32, String> {
    let w = r.iter().copied().max().unwrap_or(0);
    if r.iter().any(|x| *x != 1 && *x != w) || !(2..=3).contains(&w) {
        return Err(format!("widths {:?}", r));
    }
    Ok(r.iter().fold(0, |a, x| a << 1 | (*x > 1) as u32))
}

pub fn read_code39(m: &[u8]) -> Result<String, String> {
    let r = runs(m)?;
    if r.len() % 10 != 9 {
        return Err(format!("{} elements", r.len()));
    }
    let mut s = String::new();
    for c in r.chunks(10) {
        let n = wide(&c[..9])?;
        if c.len() == 10 && c[9] > 1 {
            return Err("wide gap between characters".into());
        }
        let i = C39_WIDE.iter().position(|x| *x == n).ok_or(format!("no character {:09b}", n))?;
        s.push(C39.as_bytes()[i] as char);
    }
    let t = s.strip_prefix('*').and_then(|t| t.strip_suffix('*')).ok_or("start or stop is missing")?;
    if t.contains('*') {
        return Err("start or stop in the middle".into());
    }
    Ok(t.to_string())
}

// ---------------------------------------------------------------- ITF

const ITF_WIDE: [u32; 10] = [0b00110, 0b10001, 0b01001, 0b11000, 0b00101, 0b10100, 0b01100, 0b00011, 0b10010, 0b01010];

pub fn read_itf(m: &[u8]) -> Result<Vec<u8>, String> {
    let r = runs(m)?;
    if r.len() < 7 + 10 || (r.len() - 7) % 10 != 0 {
        return Err(format!("{} elements", r.len()));
    }
    if r[..4] != [1, 1, 1, 1] {
        return Err("start is missing".into());
    }
    let e = r.len() - 3;
    if r[e] < 2 || r[e + 1] != 1 || r[e + 2] != 1 {
        return Err("stop is missing".into());
    }
    let mut d = vec![];
    for c in r[4..e].chunks(10) {
        for k in 0..2 {
            let v: Vec<usize> = c.iter().skip(k).step_by(2).copied().collect();
            let n = wide(&v)?;
            d.push(ITF_WIDE.iter().position(|x| *x == n).ok_or("no digit")? as u8);
        }
    }
    Ok(d)
}

// ---------------------------------------------------------------- Codabar

const CBAR: &str = "0123456789-$:/.+ABCD";
const CBAR_WIDE: [u32; 20] = [
    0x03, 0x06, 0x09, 0x60, 0x12, 0x42, 0x21, 0x24, 0x30, 0x48, 0x0C, 0x18, 0x45, 0x51, 0x54, 0x15, 0x1A, 0x29, 0x0B,
    0x0E,
];

pub fn read_codabar(m: &[u8]) -> Result<String, String> {
    let r = runs(m)?;
    if r.len() % 8 != 7 {
        return Err(format!("{} elements", r.len()));
    }
    let mut s = String::new();
    for c in r.chunks(8) {
        let n = wide(&c[..7])?;
        if c.len() == 8 && c[7] > 1 {
            return Err("wide gap between characters".into());
        }
        let i = CBAR_WIDE.iter().position(|x| *x == n).ok_or(format!("no character {:07b}", n))?;
        s.push(CBAR.as_bytes()[i] as char);
    }
    Ok(s)
}

pub fn codabar(s: &str) -> Option<Vec<u8>> {
    let mut m = vec![];
    for c in s.chars() {
        let n = CBAR_WIDE[CBAR.find(c)?];
        if !m.is_empty() {
            m.push(0);
        }
        for i in 0..7 {
            for _ in 0..1 + (n >> (6 - i) & 1) {
                m.push(1 - i as u8 % 2);
            }
        }
    }
    Some(m)
}

// ---------------------------------------------------------------- Code 93

/// Values 43 to 46 are the shifts ($) (%) (/) (+), 47 is start and stop
const C93: &str = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%abcd*";
const C93_BITS: [u32; 48] = [
    0x114, 0x148, 0x144, 0x142, 0x128, 0x124, 0x122, 0x150, 0x112, 0x10A, 0x1A8, 0x1A4, 0x1A2, 0x194, 0x192, 0x18A,
    0x168, 0x164, 0x162, 0x134, 0x11A, 0x158, 0x14C, 0x146, 0x12C, 0x116, 0x1B4, 0x1B2, 0x1AC, 0x1A6, 0x196, 0x19A,
    0x16C, 0x166, 0x136, 0x13A, 0x12E, 0x1D4, 0x1D2, 0x1CA, 0x16E, 0x176, 0x1AE, 0x126, 0x1DA, 0x1D6, 0x132, 0x15E,
];

fn c93_check(v: &[usize], max: usize) -> usize {
    v.iter().rev().enumerate().map(|(i, x)| x * (i % max + 1)).sum::<usize>() % 47
}

pub fn read_code93(m: &[u8]) -> Result<String, String> {
    if m.len() % 9 != 1 || m.last() != Some(&1) {
        return Err(format!("{} modules", m.len()));
    }
    let mut v = vec![];
    for c in m[..m.len() - 1].chunks(9) {
        let n = num(c);
        v.push(C93_BITS.iter().position(|x| *x == n).ok_or(format!("no character {:09b}", n))?);
    }
    if v.len() < 4 || v[0] != 47 || v[v.len() - 1] != 47 || v[1..v.len() - 1].contains(&47) {
        return Err("start or stop is missing".into());
    }
    let v = &v[1..v.len() - 1];
    let n = v.len();
    if c93_check(&v[..n - 2], 20) != v[n - 2] || c93_check(&v[..n - 1], 15) != v[n - 1] {
        return Err("check characters are wrong".into());
    }
    let mut s = String::new();
    let mut it = v[..n - 2].iter();
    while let Some(x) = it.next() {
        let c = C93.as_bytes()[*x];
        if *x < 43 {
            s.push(c as char);
            continue;
        }
        let l = it.next().map(|y| C93.as_bytes()[*y]).filter(|l| l.is_ascii_uppercase()).ok_or("shift without a letter")?;
        let k = l - b'A';
        s.push(match (x, k) {
            (43, _) => (1 + k) as char,
            (44, 0..=4) => (27 + k) as char,
            (44, 5..=9) => (b';' + k - 5) as char,
            (44, 10..=14) => (b'[' + k - 10) as char,
            (44, 15..=19) => (b'{' + k - 15) as char,
            (44, 20) => 0 as char,
            (44, 21) => '@',
            (44, 22) => '`',
            (44, _) => 127 as char,
            (45, 0..=15) => (b'!' + k) as char,
            (45, 25) => ':',
            (46, _) => (b'a' + k) as char,
            _ => return Err("shift with a wrong letter".into()),
        });
    }
    Ok(s)
}

/// The values of a character, which take a shift when there is no pattern for it
fn c93_values(c: u8) -> Vec<usize> {
    let sh = |s: usize, l: u8| vec![s, l as usize - b'A' as usize + 10];
    if let Some(i) = C93[..43].bytes().position(|x| x == c) {
        return vec![i];
    }
    match c {
        0 => sh(44, b'U'),
        1..=26 => sh(43, b'A' + c - 1),
        27..=31 => sh(44, b'A' + c - 27),
        b'!'..=b'/' => sh(45, b'A' + c - b'!'),
        b':' => sh(45, b'Z'),
        b';'..=b'?' => sh(44, b'F' + c - b';'),
        b'@' => sh(44, b'V'),
        b'['..=b'_' => sh(44, b'K' + c - b'['),
        b'`' => sh(44, b'W'),
        b'a'..=b'z' => sh(46, b'A' + c - b'a'),
        b'{'..=b'~' => sh(44, b'P' + c - b'{'),
        _ => sh(44, b'T'),
    }
}

pub fn code93(s: &str) -> Option<Vec<u8>> {
    if !s.is_ascii() || s.is_empty() {
        return None;
    }
    let mut v: Vec<usize> = s.bytes().flat_map(c93_values).collect();
    let c = c93_check(&v, 20);
    v.push(c);
    let k = c93_check(&v, 15);
    v.push(k);
    v.insert(0, 47);
    v.push(47);
    let mut m: Vec<u8> = v.iter().flat_map(|x| bits(C93_BITS[*x], 9)).collect();
    m.push(1);
    Some(m)
}

// ---------------------------------------------------------------- Code 128

const C128: &str = "212222 222122 222221 121223 121322 131222 122213 122312 132212 221213 221312 231212 112232 122132 \
122231 113222 123122 123221 223211 221132 221231 213212 223112 312131 311222 321122 321221 312212 322112 322211 212123 \
212321 232121 111323 131123 131321 112313 132113 132311 211313 231113 231311 112133 112331 132131 113123 113321 133121 \
313121 211331 231131 213113 213311 213131 311123 311321 331121 312113 312311 332111 314111 221411 431111 111224 111422 \
121124 121421 141122 141221 112214 112412 122114 122411 142112 142211 241211 221114 413111 241112 134111 111242 121142 \
121241 114212 124112 124211 411212 421112 421211 212141 214121 412121 111143 111341 131141 114113 114311 411113 411311 \
113141 114131 311141 411131 211412 211214 211232";

#[derive(Clone, Debug, PartialEq)]
pub enum Token {
    Char(u8),
    Fnc(u8),
}

pub fn read_code128(m: &[u8]) -> Result<Vec<Token>, String> {
    let r = runs(m)?;
    if r.len() < 6 * 3 + 7 || r.len() % 6 != 1 {
        return Err(format!("{} elements", r.len()));
    }
    let e = r.len() - 7;
    if r[e..] != [2, 3, 3, 1, 1, 1, 2] {
        return Err("stop is missing".into());
    }
    let table: Vec<&str> = C128.split_whitespace().collect();
    let mut v = vec![];
    for c in r[..e].chunks(6) {
        let s: String = c.iter().map(|x| char::from_digit((*x).min(9) as u32, 10).unwrap()).collect();
        v.push(table.iter().position(|t| *t == s).ok_or(format!("no character {}", s))?);
    }
    let n = v.len() - 1;
    let sum = v[..n].iter().enumerate().map(|(i, x)| x * i.max(1)).sum::<usize>() % 103;
    if sum != v[n] {
        return Err("check character is wrong".into());
    }
    let mut set = match v[0] {
        103 => b'A',
        104 => b'B',
        105 => b'C',
        x => return Err(format!("starts with {}", x)),
    };
    let mut t = vec![];
    let mut shift = false;
    for x in &v[1..n] {
        let x = *x as u8;
        let now = if shift { if set == b'A' { b'B' } else { b'A' } } else { set };
        shift = false;
        match (now, x) {
            (_, 103..) => return Err("start in the middle".into()),
            (_, 102) => t.push(Token::Fnc(1)),
            (b'C', 101) => set = b'A',
            (b'C', 100) => set = b'B',
            (b'C', _) => {
                t.push(Token::Char(b'0' + x / 10));
                t.push(Token::Char(b'0' + x % 10));
            }
            (_, 99) => set = b'C',
            (b'A', 101) | (b'B', 100) => t.push(Token::Fnc(4)),
            (b'A', 100) => set = b'B',
            (_, 101) => set = b'A',
            (_, 98) => shift = true,
            (_, 97) => t.push(Token::Fnc(2)),
            (_, 96) => t.push(Token::Fnc(3)),
            (b'A', 64..) => t.push(Token::Char(x - 64)),
            _ => t.push(Token::Char(x + 32)),
        }
    }
    if shift {
        return Err("shift at the end".into());
    }
    Ok(t)
}

/// What ESC/POS data for CODE128 says: values of the symbol, the tokens and
/// the text to show. None when it can't be encoded.
pub fn code128_values(d: &[u8]) -> Option<(Vec<u8>, Vec<Token>, String)> {
    let (mut v, mut t, mut text) = (vec![], vec![], String::new());
    let mut set = 0u8;
    let mut i = 0;
    // value of a character in set A or B
    let ab = |set: u8, c: u8| -> Option<u8> {
        match (set, c) {
            (b'A', 0..=31) => Some(c + 64),
            (b'A', 32..=95) => Some(c - 32),
            (b'B', 32..=127) => Some(c - 32),
            _ => None,
        }
    };
    let digit = |i: usize| d.get(i).copied().filter(|c| c.is_ascii_digit());
    while i < d.len() {
        let c = d[i];
        if c >= 128 {
            return None;
        }
        if c == b'{' {
            let s = *d.get(i + 1)?;
            i += 2;
            match s {
                b'A' | b'B' | b'C' => {
                    v.push(match (set, s) {
                        (0, _) => s - b'A' + 103,
                        (x, y) if x == y => return None,
                        (_, b'A') => 101,
                        (_, b'B') => 100,
                        _ => 99,
                    });
                    set = s;
                }
                _ if set == 0 => return None,
                b'1' => {
                    v.push(102);
                    t.push(Token::Fnc(1));
                }
                b'2' | b'3' | b'4' => {
                    v.push(match (s, set) {
                        (_, b'C') => return None,
                        (b'2', _) => 97,
                        (b'3', _) => 96,
                        (_, b'A') => 101,
                        _ => 100,
                    });
                    t.push(Token::Fnc(s - b'0'));
                }
                b'S' => {
                    let other = match set {
                        b'A' => b'B',
                        b'B' => b'A',
                        _ => return None,
                    };
                    let mut c = *d.get(i)?;
                    if c == b'{' {
                        if d.get(i + 1) != Some(&b'{') {
                            return None;
                        }
                        i += 1;
                    }
                    i += 1;
                    v.push(98);
                    v.push(ab(other, c)?);
                    t.push(Token::Char(c));
                    text.push(std::mem::replace(&mut c, 0) as char);
                }
                b'{' => {
                    v.push(ab(set, b'{')?);
                    t.push(Token::Char(b'{'));
                    text.push('{');
                }
                _ => return None,
            }
            continue;
        }
        if set == b'C' {
            let (a, b) = (digit(i)?, digit(i + 1)?);
            v.push((a - 48) * 10 + b - 48);
            t.push(Token::Char(a));
            t.push(Token::Char(b));
            text.push(a as char);
            text.push(b as char);
            i += 2;
        } else {
            v.push(ab(set, c)?);
            t.push(Token::Char(c));
            text.push(c as char);
            i += 1;
        }
    }
    if set == 0 {
        return None;
    }
    Some((v, t, text))
}

pub fn code128(d: &[u8]) -> Option<(Vec<u8>, String)> {
    let (mut v, _, text) = code128_values(d)?;
    let sum = v.iter().enumerate().map(|(i, x)| *x as usize * i.max(1)).sum::<usize>() % 103;
    v.push(sum as u8);
    let table: Vec<&str> = C128.split_whitespace().collect();
    let mut m = vec![];
    let mut put = |s: &str| {
        for (i, c) in s.bytes().enumerate() {
            for _ in 0..c - b'0' {
                m.push(1 - i as u8 % 2);
            }
        }
    };
    for x in v {
        put(table[x as usize]);
    }
    put("2331112");
    Some((m, text))
}
