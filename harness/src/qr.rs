//! Reads QR and Micro QR symbols back into data, after ISO/IEC 18004. A
//! symbol must be perfect: nothing is corrected.

const EC: [[u8; 40]; 4] = [
    [7, 10, 15, 20, 26, 18, 20, 24, 30, 18, 20, 24, 26, 30, 22, 24, 28, 30, 28, 28, 28, 28, 30, 30, 26, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
    [10, 16, 26, 18, 24, 16, 18, 22, 22, 26, 30, 22, 22, 24, 24, 28, 28, 26, 26, 26, 26, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28],
    [13, 22, 18, 26, 18, 24, 18, 22, 20, 24, 28, 26, 24, 20, 30, 24, 28, 28, 26, 30, 28, 30, 30, 30, 30, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
    [17, 28, 22, 16, 22, 28, 26, 26, 24, 28, 24, 28, 22, 24, 24, 30, 28, 28, 26, 28, 30, 24, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
];
const BLOCKS: [[u8; 40]; 4] = [
    [1, 1, 1, 1, 1, 2, 2, 2, 2, 4, 4, 4, 4, 4, 6, 6, 6, 6, 7, 8, 8, 9, 9, 10, 12, 12, 12, 13, 14, 15, 16, 17, 18, 19, 19, 20, 21, 22, 24, 25],
    [1, 1, 1, 2, 2, 4, 4, 4, 5, 5, 5, 8, 9, 9, 10, 10, 11, 13, 14, 16, 17, 17, 18, 20, 21, 23, 25, 26, 28, 29, 31, 33, 35, 37, 38, 40, 43, 45, 47, 49],
    [1, 1, 2, 2, 4, 4, 6, 6, 8, 8, 8, 10, 12, 16, 12, 17, 16, 18, 21, 20, 23, 23, 25, 27, 29, 34, 34, 35, 38, 40, 43, 45, 48, 51, 53, 56, 59, 62, 65, 68],
    [1, 1, 2, 4, 4, 4, 5, 6, 8, 8, 11, 11, 16, 16, 18, 16, 19, 21, 25, 25, 25, 34, 30, 32, 35, 37, 40, 42, 45, 48, 51, 54, 57, 60, 63, 66, 70, 74, 77, 81],
];

/// Modules of a symbol that hold code words
fn raw_modules(v: usize) -> usize {
    let mut n = (16 * v + 128) * v + 64;
    if v >= 2 {
        let a = v / 7 + 2;
        n -= (25 * a - 10) * a - 55;
        if v >= 7 {
            n -= 36;
        }
    }
    n
}

fn data_words(v: usize, level: usize) -> usize {
    raw_modules(v) / 8 - EC[level][v - 1] as usize * BLOCKS[level][v - 1] as usize
}

/// Bytes a symbol of a version holds at the lowest level
pub fn byte_capacity_l(v: u32) -> usize {
    let bits = data_words(v as usize, 0) * 8 - 4 - if v < 10 { 8 } else { 16 };
    bits / 8
}

/// The most bytes that fit any symbol of a kind as plain bytes, by level
pub fn max_bytes(model: u8, level: usize) -> usize {
    if model == 51 {
        return [15, 13, 9, 0][level];
    }
    let v = if model == 50 { 40 } else { 14 };
    (data_words(v, level) * 8 - 20) / 8
}

#[derive(Clone, Debug, PartialEq)]
pub struct Symbol {
    pub micro: bool,
    pub version: u32,
    /// 0 to 3, 4 when there is only error detection
    pub level: u8,
    pub mask: u8,
    pub data: Vec<u8>,
    pub modes: Vec<u8>,
}

fn bch_format(d: u32) -> u32 {
    let mut r = d << 10;
    for i in (10..15).rev() {
        if r >> i & 1 == 1 {
            r ^= 0x537 << (i - 10);
        }
    }
    d << 10 | r
}

fn bch_version(d: u32) -> u32 {
    let mut r = d << 12;
    for i in (12..18).rev() {
        if r >> i & 1 == 1 {
            r ^= 0x1F25 << (i - 12);
        }
    }
    d << 12 | r
}

fn gf_mul(a: u8, b: u8) -> u8 {
    let (mut a, mut b, mut r) = (a as u32, b as u32, 0);
    while b > 0 {
        if b & 1 == 1 {
            r ^= a;
        }
        a <<= 1;
        if a & 256 != 0 {
            a ^= 0x11D;
        }
        b >>= 1;
    }
    r as u8
}

fn rs_ok(block: &[u8], ec: usize) -> bool {
    let mut root = 1u8;
    for _ in 0..ec {
        let mut s = 0u8;
        for b in block {
            s = gf_mul(s, root) ^ b;
        }
        if s != 0 {
            return false;
        }
        root = gf_mul(root, 2);
    }
    true
}

fn alignment(v: usize) -> Vec<usize> {
    if v == 1 {
        return vec![];
    }
    let n = v / 7 + 2;
    let step = if v == 32 { 26 } else { (v * 4 + n * 2 + 1) / (n * 2 - 2) * 2 };
    let mut r: Vec<usize> = (0..n - 1).map(|i| v * 4 + 10 - i * step).collect();
    r.push(6);
    r.reverse();
    r
}

struct Grid<'a> {
    w: usize,
    m: &'a [bool],
    function: Vec<bool>,
}

impl Grid<'_> {
    fn at(&self, x: usize, y: usize) -> bool {
        self.m[y * self.w + x]
    }
    fn fixed(&mut self, x: usize, y: usize, dark: bool) -> Result<(), String> {
        self.function[y * self.w + x] = true;
        if self.at(x, y) != dark {
            return Err(format!("fixed pattern is wrong at {},{}", x, y));
        }
        Ok(())
    }
    fn finder(&mut self, cx: i64, cy: i64) -> Result<(), String> {
        for dy in -4i64..=4 {
            for dx in -4i64..=4 {
                let (x, y) = (cx + dx, cy + dy);
                if x >= 0 && y >= 0 && x < self.w as i64 && y < self.w as i64 {
                    let d = dx.abs().max(dy.abs());
                    self.fixed(x as usize, y as usize, d != 2 && d != 4)?;
                }
            }
        }
        Ok(())
    }
}

struct Bits<'a> {
    d: &'a [bool],
    at: usize,
}

impl Bits<'_> {
    fn take(&mut self, n: usize) -> Result<u32, String> {
        if self.at + n > self.d.len() {
            return Err("data ends in the middle of a segment".into());
        }
        let r = self.d[self.at..self.at + n].iter().fold(0, |a, b| a << 1 | *b as u32);
        self.at += n;
        Ok(r)
    }
    fn left(&self) -> usize {
        self.d.len() - self.at
    }
}

const ALNUM: &[u8] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:";

fn segment(b: &mut Bits, mode: u8, count_bits: usize, out: &mut Vec<u8>) -> Result<(), String> {
    let n = b.take(count_bits)? as usize;
    match mode {
        0 => {
            let mut left = n;
            while left > 0 {
                let k = left.min(3);
                let v = b.take([0, 4, 7, 10][k])?;
                let s = format!("{:0w$}", v, w = k);
                if s.len() != k {
                    return Err("numeric group is out of range".into());
                }
                out.extend_from_slice(s.as_bytes());
                left -= k;
            }
        }
        1 => {
            let mut left = n;
            while left > 0 {
                if left >= 2 {
                    let v = b.take(11)? as usize;
                    out.push(*ALNUM.get(v / 45).ok_or("alphanumeric pair is out of range")?);
                    out.push(ALNUM[v % 45]);
                    left -= 2;
                } else {
                    let v = b.take(6)? as usize;
                    out.push(*ALNUM.get(v).ok_or("alphanumeric character is out of range")?);
                    left -= 1;
                }
            }
        }
        2 => {
            for _ in 0..n {
                out.push(b.take(8)? as u8);
            }
        }
        _ => {
            for _ in 0..n {
                let v = b.take(13)?;
                let mut c = (v / 0xC0) << 8 | v % 0xC0;
                c += if c < 0x1F00 { 0x8140 } else { 0xC140 };
                out.push((c >> 8) as u8);
                out.push(c as u8);
            }
        }
    }
    Ok(())
}

fn pads_ok(b: &mut Bits) -> Result<(), String> {
    while b.at % 8 != 0 && b.left() > 0 {
        if b.take(1)? != 0 {
            return Err("padding bits are not zero".into());
        }
    }
    let mut want = 0xEC;
    while b.left() >= 8 {
        if b.take(8)? != want {
            return Err("pad code words are wrong".into());
        }
        want ^= 0xEC ^ 0x11;
    }
    Ok(())
}

fn masked(micro: bool, mask: u8, x: usize, y: usize) -> bool {
    let k = if micro { [1, 4, 6, 7][mask as usize] } else { mask };
    0 == match k {
        0 => (x + y) % 2,
        1 => y % 2,
        2 => x % 3,
        3 => (x + y) % 3,
        4 => (x / 3 + y / 2) % 2,
        5 => x * y % 2 + x * y % 3,
        6 => (x * y % 2 + x * y % 3) % 2,
        _ => ((x + y) % 2 + x * y % 3) % 2,
    }
}

pub fn read(w: usize, m: &[bool]) -> Result<Symbol, String> {
    if m.len() != w * w {
        return Err(format!("{} modules in a symbol of width {}", m.len(), w));
    }
    let micro = w < 21;
    if micro && !(11..=17).contains(&w) || w > 177 || (!micro && w % 4 != 1) || (micro && w % 2 != 1) {
        return Err(format!("no symbol has a width of {}", w));
    }
    let mut g = Grid { w, m, function: vec![false; w * w] };
    g.finder(3, 3)?;
    let mut format = 0u32;
    if micro {
        for i in 8..w {
            g.fixed(i, 0, i % 2 == 0)?;
            g.fixed(0, i, i % 2 == 0)?;
        }
        for x in 1..=8 {
            format = format << 1 | g.at(x, 8) as u32;
            g.function[8 * w + x] = true;
        }
        for y in (1..=7).rev() {
            format = format << 1 | g.at(8, y) as u32;
            g.function[y * w + 8] = true;
        }
        format ^= 0x4445;
    } else {
        g.finder(w as i64 - 4, 3)?;
        g.finder(3, w as i64 - 4)?;
        for i in 8..w - 8 {
            g.fixed(i, 6, i % 2 == 0)?;
            g.fixed(6, i, i % 2 == 0)?;
        }
        let v = (w - 17) / 4;
        let a = alignment(v);
        for &cx in &a {
            for &cy in &a {
                if (cx == 6 && (cy == 6 || cy == w - 7)) || (cx == w - 7 && cy == 6) {
                    continue;
                }
                for dy in 0..5 {
                    for dx in 0..5 {
                        let d = (dx as i64 - 2).abs().max((dy as i64 - 2).abs());
                        g.fixed(cx + dx - 2, cy + dy - 2, d != 1)?;
                    }
                }
            }
        }
        if v >= 7 {
            let bits = bch_version(v as u32);
            for i in 0..18 {
                let (p, q) = (i / 3, w - 11 + i % 3);
                g.fixed(p, q, bits >> i & 1 == 1)?;
                g.fixed(q, p, bits >> i & 1 == 1)?;
            }
        }
        g.fixed(8, w - 8, true)?;
        // bit 14 first, both copies
        let mut first = vec![];
        for x in [0, 1, 2, 3, 4, 5, 7, 8] {
            first.push((x, 8));
        }
        for y in [7, 5, 4, 3, 2, 1, 0] {
            first.push((8, y));
        }
        let mut second = vec![];
        for i in 0..7 {
            second.push((8, w - 1 - i));
        }
        for i in 0..8 {
            second.push((w - 8 + i, 8));
        }
        let mut two = 0;
        for ((x, y), (p, q)) in first.into_iter().zip(second) {
            format = format << 1 | g.at(x, y) as u32;
            two = two << 1 | g.at(p, q) as u32;
            g.function[y * w + x] = true;
            g.function[q * w + p] = true;
        }
        if two != format {
            return Err("the two copies of the format information differ".into());
        }
        format ^= 0x5412;
    }
    if bch_format(format >> 10) != format {
        return Err("format information is wrong".into());
    }
    let f = format >> 10;

    // bits in the order of placement
    let mut bits = vec![];
    let mask = (f & if micro { 3 } else { 7 }) as u8;
    let mut right = w as i64 - 1;
    let mut up = true;
    while right >= 1 {
        if right == 6 && !micro {
            right = 5;
        }
        for i in 0..w {
            let y = if up { w - 1 - i } else { i };
            for x in [right as usize, right as usize - 1] {
                if !g.function[y * w + x] {
                    bits.push(g.at(x, y) != masked(micro, mask, x, y));
                }
            }
        }
        up = !up;
        right -= 2;
    }
    let (mut data, mut modes) = (vec![], vec![]);

    if micro {
        let v = (w - 9) / 2;
        let n = f >> 2;
        // data bits, error correction words, level
        let (ver, dbits, ec, level) = match n {
            0 => (1, 20, 2, 4),
            1 => (2, 40, 5, 0),
            2 => (2, 32, 6, 1),
            3 => (3, 84, 6, 0),
            4 => (3, 68, 8, 1),
            5 => (4, 128, 8, 0),
            6 => (4, 112, 10, 1),
            _ => (4, 80, 14, 2),
        };
        if ver != v {
            return Err(format!("format says version {}, the size is that of {}", ver, v));
        }
        if bits.len() < dbits + ec * 8 {
            return Err("too few modules".into());
        }
        let word = |b: &[bool]| b.iter().fold(0u32, |a, x| a << 1 | *x as u32);
        // a last data word of four bits counts as the high or the low half of
        // a byte, both are in use
        let ok = [true, false].into_iter().any(|high| {
            let whole = |c: &[bool]| word(c) << if high { 8 - c.len() } else { 0 };
            let mut block: Vec<u8> = bits[..dbits].chunks(8).map(|c| whole(c) as u8).collect();
            block.extend(bits[dbits..dbits + ec * 8].chunks(8).map(|c| word(c) as u8));
            rs_ok(&block, ec)
        });
        if !ok {
            return Err("error correction does not match the data".into());
        }
        let mut b = Bits { d: &bits[..dbits], at: 0 };
        loop {
            let term = 1 + 2 * v;
            if b.left() == 0 {
                break;
            }
            let rest = &b.d[b.at..b.d.len().min(b.at + term)];
            if rest.iter().all(|x| !x) {
                b.at += rest.len();
                break;
            }
            let mode = b.take(v - 1)? as u8;
            modes.push(mode);
            let count = match mode {
                0 => v + 2,
                1 => v + 1,
                2 => v + 1,
                3 => v,
                x => return Err(format!("mode {}", x)),
            };
            segment(&mut b, mode, count, &mut data)?;
        }
        while b.at % 8 != 0 && b.left() > 0 {
            if b.take(1)? != 0 {
                return Err("padding bits are not zero".into());
            }
        }
        let mut want = 0xEC;
        while b.left() >= 8 {
            if b.take(8)? != want {
                return Err("pad code words are wrong".into());
            }
            want ^= 0xEC ^ 0x11;
        }
        if b.left() > 0 {
            let k = b.left();
            if b.take(k)? != 0 {
                return Err("the last half pad word is wrong".into());
            }
        }
        return Ok(Symbol { micro, version: v as u32, level, mask, data, modes });
    }

    let v = (w - 17) / 4;
    if bits.len() != raw_modules(v) {
        return Err(format!("{} modules hold data instead of {}", bits.len(), raw_modules(v)));
    }
    let level = [1usize, 0, 3, 2][(f >> 3) as usize];
    let words: Vec<u8> = bits.chunks_exact(8).map(|c| c.iter().fold(0, |a, b| a << 1 | *b as u8)).collect();
    let (nb, ec) = (BLOCKS[level][v - 1] as usize, EC[level][v - 1] as usize);
    let (total, short) = (words.len(), words.len() / nb - ec);
    let short_blocks = nb - total % nb;
    let mut blocks: Vec<Vec<u8>> = vec![vec![]; nb];
    let mut it = words.into_iter();
    for i in 0..=short {
        for (k, b) in blocks.iter_mut().enumerate() {
            if i < short || k >= short_blocks {
                b.push(it.next().unwrap());
            }
        }
    }
    let mut all = vec![];
    for b in &blocks {
        all.extend_from_slice(b);
    }
    for _ in 0..ec {
        for b in blocks.iter_mut() {
            b.push(it.next().unwrap());
        }
    }
    if !blocks.iter().all(|b| rs_ok(b, ec)) {
        return Err("error correction does not match the data".into());
    }
    let dbits: Vec<bool> = all.iter().flat_map(|w| (0..8).rev().map(move |i| w >> i & 1 == 1)).collect();
    let mut b = Bits { d: &dbits, at: 0 };
    loop {
        if b.left() < 4 {
            break;
        }
        let mode = match b.take(4)? {
            0 => break,
            1 => 0,
            2 => 1,
            4 => 2,
            8 => 3,
            x => return Err(format!("mode {}", x)),
        };
        modes.push(mode);
        let g = if v < 10 { 0 } else if v < 27 { 1 } else { 2 };
        let count = [[10, 12, 14], [9, 11, 13], [8, 16, 16], [8, 10, 12]][mode as usize][g];
        segment(&mut b, mode, count, &mut data)?;
    }
    pads_ok(&mut b)?;
    Ok(Symbol { micro, version: v as u32, level: level as u8, mask, data, modes })
}
