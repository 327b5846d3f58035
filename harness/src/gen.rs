//! Generators of commands and jobs.
use crate::engine::Src;
use crate::items::Item::*;
use crate::items::*;

pub fn g_word(s: &mut Src, max: usize) -> Vec<u8> {
    let n = 1 + s.len(max.max(1) - 1);
    (0..n)
        .map(|_| match s.below(6) {
            0 => b'a' + s.below(26) as u8,
            1 => b'A' + s.below(26) as u8,
            2 => b'0' + s.below(10) as u8,
            3 => s.u(33, 126) as u8,
            _ => b'a' + s.below(6) as u8,
        })
        .collect()
}

/// Words and spaces
pub fn g_ascii(s: &mut Src, max: usize) -> Vec<u8> {
    let mut t = vec![];
    loop {
        if s.chance(1, 5) {
            for _ in 0..1 + s.n(3) {
                t.push(b' ');
            }
        }
        t.extend(g_word(s, 12.min(max)));
        if t.len() >= max || !s.chance(2, 3) {
            break;
        }
        t.push(b' ');
    }
    if s.chance(1, 6) {
        t.push(b' ');
    }
    t.truncate(max.max(1));
    t
}

/// Any bytes that are text
pub fn g_text_bytes(s: &mut Src, max: usize) -> Vec<u8> {
    let n = 1 + s.len(max - 1);
    (0..n)
        .map(|_| loop {
            let b = match s.below(4) {
                0 => s.u(32, 126) as u8,
                1 => s.u(128, 255) as u8,
                _ => s.byte(),
            };
            if is_text_byte(b) {
                break b;
            }
            if s.below(2) == 0 {
                break b'x';
            }
        })
        .collect()
}

/// Parameter that switches something on or off
pub fn g_switch(s: &mut Src) -> u8 {
    match s.below(3) {
        0 => s.below(3) as u8,
        1 => s.one(&[1u8, 0, 49, 48, 2, 50, 51, 255, 254, 128]),
        _ => s.byte(),
    }
}

pub fn g_size(s: &mut Src) -> u8 {
    match s.below(6) {
        0..=2 => s.one(&[0u8, 1, 0x10, 0x11, 2, 0x20, 0x21, 0x12]),
        3 | 4 => (s.below(4) << 4 | s.below(4)) as u8,
        _ => s.byte(),
    }
}

pub fn g_font(s: &mut Src) -> u8 {
    if s.chance(1, 6) { s.bbyte() } else { s.one(&[0u8, 1, 2, 3, 4, 48, 49, 50, 51, 52, 97, 98]) }
}

pub fn g_color(s: &mut Src) -> u8 {
    if s.chance(1, 8) { s.byte() } else { s.one(&[49u8, 48, 50, 51, 0, 1, 2, 3]) }
}

pub fn g_style(s: &mut Src) -> Item {
    match s.below(14) {
        0 => Emphasis(g_switch(s)),
        1 => Underline(g_switch(s)),
        2 => CharSize(g_size(s)),
        3 => Font(g_font(s)),
        4 => Strike(g_switch(s)),
        5 => Italic(g_switch(s)),
        6 => Invert(g_switch(s)),
        7 => Upside(g_switch(s)),
        8 => PrintMode(if s.chance(1, 2) { s.byte() } else { s.one(&[0u8, 1, 8, 16, 32, 128, 0xB9]) }),
        9 => AltColor(g_switch(s)),
        10 => Effects(48, vec![g_color(s)]),
        11 => Effects(49, vec![g_color(s)]),
        12 => Smooth(g_switch(s)),
        _ => {
            let f = s.one(&[50u8, 51, 0, 47]);
            let n = s.n(3);
            Effects(f, s.bytes(n))
        }
    }
}

/// Style without the commands that change the size of cells
pub fn g_look(s: &mut Src) -> Item {
    loop {
        let i = g_style(s);
        if !matches!(i, CharSize(_) | Font(_) | PrintMode(_)) {
            return i;
        }
    }
}

pub fn g_just(s: &mut Src) -> Item {
    Just(if s.chance(1, 8) { s.bbyte() } else { s.one(&[0u8, 1, 2, 48, 49, 50]) })
}

pub fn g_spacing(s: &mut Src) -> Item {
    match s.below(4) {
        0 => DefaultSpacing,
        1 => Spacing(s.one(&[24u8, 0, 1, 30, 40, 60])),
        _ => Spacing(s.u(0, 60) as u8),
    }
}

pub fn g_tab(s: &mut Src) -> Item {
    let n = match s.below(8) {
        0 => 0,
        1 => 32,
        2 => 31,
        _ => s.len(9),
    };
    let top = s.one(&[20u8, 50, 50, 99, 255]);
    tab_stops(s, n, top)
}

/// Columns in ascending order, ended by NUL
/// Tab stops without an end, which a byte that isn't higher than the last stop ends
pub fn open_tabs(s: &mut Src, v: &mut [Item]) {
    for i in 0..v.len().saturating_sub(1) {
        let next = crate::items::encode(&v[i + 1..i + 2]).first().copied().unwrap_or(0);
        if let Tab(t) = &mut v[i] {
            let stops = t.iter().filter(|c| **c != 0).count();
            if stops == 0 || t.last() != Some(&0) || next == 0 || !s.chance(1, 2) {
                continue;
            }
            let low = next <= t[stops - 1];
            t.pop();
            // 32 columns need no end, nothing is higher than 255
            if !low && stops < 32 {
                // the same as the last stop
                t.push(next);
            }
        }
    }
}

pub fn tab_stops(s: &mut Src, n: usize, top: u8) -> Item {
    let mut v: Vec<u8> = (0..n).map(|_| s.u(1, top as u32) as u8).collect();
    v.sort();
    v.dedup();
    // as many as there can be
    while n == 32 && v.len() < 32 {
        let free: Vec<u8> = (1..=top.max(32)).filter(|c| !v.contains(c)).collect();
        v.push(s.one(&free));
        v.sort();
    }
    v.push(0);
    Tab(v)
}

/// A position that leaves room for something in the line
/// Motion units, zero selects the default
pub fn g_motion(s: &mut Src) -> Item {
    let mut f = || if s.chance(1, 4) { 0 } else { s.byte() };
    let (x, y) = (f(), f());
    Motion(x, y)
}

pub fn g_absx(s: &mut Src, max: u16) -> Item {
    if s.chance(1, 12) {
        let any = s.below(65_536) as u16;
        return AbsX(s.one(&[600u16, 608, 609, 610, 649, 32_767, 32_768, 33_000, 65_535, any]));
    }
    AbsX(if s.chance(1, 2) { s.below(max as u64 / 2 + 1) as u16 } else { s.below(max as u64 + 1) as u16 })
}

pub fn g_cut(s: &mut Src, feed: u8) -> Item {
    let m = s.one(&[0u8, 1, 48, 49, 65, 66, 97, 98, 103, 104, 65, 66]);
    Cut(m, if cut_has_length(m) { s.below(feed as u64 + 1) as u8 } else { 0 })
}

/// Feeds of the paper. Lines are kept few so that pictures stay small.
pub fn g_feed(s: &mut Src, big: bool) -> Item {
    let (l, d) = if big { (255, 255) } else { (4, 60) };
    match s.below(7) {
        0 | 1 => Lf,
        2 => FeedLines(s.below(l + 1) as u8),
        3 => FeedDots(s.below(d + 1) as u8),
        4 => ReverseLines(s.below(if big { 256 } else { 7 }) as u8),
        5 => g_cut(s, d as u8),
        _ => Lf,
    }
}

fn noise(s: &mut Src, n: usize) -> Vec<u8> {
    // one choice per image keeps cases short, the bits come from it
    let kind = s.below(6);
    let mut x = s.below(1 << 32) | 1;
    (0..n)
        .map(|i| match kind {
            0 => 0xFF,
            1 => 0x80,
            2 => 0x01,
            3 if i == 0 => 0x80,
            3 => 0,
            _ => {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                (x >> 11) as u8
            }
        })
        .collect()
}

pub fn g_bits(s: &mut Src, n: usize) -> Vec<u8> {
    noise(s, n)
}

pub fn g_bit_image(s: &mut Src, max_w: u64) -> Item {
    let m = if s.chance(1, 6) { s.bbyte() } else { s.one(&[0u8, 1, 32, 33]) };
    let w = dim(s, max_w);
    let h = if m == 32 || m == 33 { 3 } else { 1 };
    BitImage(m, w as u16, noise(s, w * h))
}

fn dim(s: &mut Src, max: u64) -> usize {
    match s.below(4) {
        0 => s.below(max.min(4) + 1) as usize,
        1 | 2 => s.below(max.min(20) + 1) as usize,
        _ => s.below(max + 1) as usize,
    }
}

pub fn g_raster(s: &mut Src, max_wb: u64, max_h: u64) -> Item {
    let m = if s.chance(1, 8) { s.bbyte() } else { s.one(&[0u8, 1, 2, 3, 48, 49, 50, 51]) };
    let (w, h) = (dim(s, max_wb), dim(s, max_h));
    Raster(m, w as u16, h as u16, noise(s, w * h))
}

/// Key of a stored graphic, from few enough that they meet again
pub fn g_key(s: &mut Src) -> (u8, u8) {
    s.one(&[(32, 65), (33, 65), (65, 32), (0, 0), (0, 65), (65, 0), (255, 255), (48, 49)])
}

/// A number whose bytes carry
fn edge(s: &mut Src, add: &[i64]) -> i64 {
    s.one(&[255i64, 256, 257, 511, 512, 513, 767, 1024, 4095, 4096, 32767, 32768, 65279, 65280, 65534, 65535]) + s.one(add)
}

/// A raster image whose width or height needs both of its bytes
pub fn g_large_raster(s: &mut Src, max_h: i64) -> Item {
    let m = s.one(&[0u8, 1, 2, 3, 48, 49, 50, 51]);
    let (w, h) = if s.chance(1, 2) {
        (1 + s.n(3), edge(s, &[0, 1, -1]).min(max_h) as usize)
    } else {
        (s.one(&[255usize, 256, 257, 300, 511, 512, 513]), 1 + s.n(3))
    };
    Raster(m, w as u16, h as u16, noise(s, w * h))
}

/// A graphic of a large size, one with several layers does not fit into the
/// length of the short form
pub fn large_def(s: &mut Src, k: (u8, u8), nv: bool) -> Item {
    let column = s.chance(1, 2);
    let n = 1 + s.weighted(&[4, 2, 1]);
    // the length of one layer
    let len = edge(s, &[0, -1, -12, -13, 1, 16]).max(2) as usize;
    let rows = 1 + s.n(4);
    let (a, b) = ((len / rows) as u16, rows as u16 * 8 - s.below(8) as u16);
    let (mut w, mut h) = if column { (a, b) } else { (b, a) };
    if s.chance(1, 3) {
        // bits of a row or column that take many bytes
        let (a, b) = ((len.min(8190) * 8 - s.below(8) as usize) as u16, s.u(1, 3) as u16);
        (w, h) = if column { (b, a) } else { (a, b) };
    }
    let layers: Vec<(u8, Vec<u8>)> = (0..n).map(|_| (g_color(s), noise(s, def_len(column, w, h)))).collect();
    let f = match (nv, column) {
        (true, false) => 67,
        (true, true) => 68,
        (false, false) => 83,
        (false, true) => 84,
    };
    let d = gfx_def(nv, column, k, w, h, &layers);
    let large = d.len() > 65533 || s.chance(1, 2);
    Gfx(large, 48, f, d)
}

pub fn large_buffer(s: &mut Src) -> Item {
    let column = s.chance(1, 2);
    let len = edge(s, &[0, -1, -9, -10, -11, 1]).max(2) as u16;
    let rows = 8 - s.below(8) as u16;
    let (mut w, mut h) = if column { (len, rows) } else { (rows, len) };
    if s.chance(1, 3) {
        // bits of a row or column that take many bytes
        let (a, b) = (len.max(9) - s.below(8) as u16, s.u(1, 3) as u16);
        (w, h) = if column { (b, a) } else { (a, b) };
    }
    let mut d = vec![48, 1, 1, g_color(s)];
    d.extend_from_slice(&w.to_le_bytes());
    d.extend_from_slice(&h.to_le_bytes());
    d.extend(noise(s, def_len(column, w, h)));
    let large = d.len() > 65533 || s.chance(1, 2);
    Gfx(large, 48, if column { 113 } else { 112 }, d)
}

/// Commands whose lengths need every byte they have
pub fn g_large(s: &mut Src) -> Item {
    match s.below(12) {
        0 | 1 => g_large_raster(s, 65535),
        2 => {
            let m = s.one(&[0u8, 1, 32, 33]);
            let w = edge(s, &[0, 1, -1]).min(65535) as usize;
            BitImage(m, w as u16, noise(s, w * if m >= 32 { 3 } else { 1 }))
        }
        3 => {
            let n = edge(s, &[-1, -2, -3]) as usize;
            Code2d(49, s.one(&[80u8, 80, 67, 81]), noise(s, n.min(65533)))
        }
        4 => {
            let n = edge(s, &[-1, -2]) as usize;
            Effects(s.one(&[48u8, 49]), noise(s, n.min(65534)))
        }
        5 => {
            let n = edge(s, &[-1, -2, -3]) as usize;
            Response(48, 48, noise(s, n.min(65533)))
        }
        6 => {
            let n = edge(s, &[0, -1]) as usize;
            GsG(noise(s, n))
        }
        7 => {
            let n = edge(s, &[0, 1, 16]) as usize;
            Text(noise(s, n).into_iter().map(|b| if is_text_byte(b) { b } else { b'x' }).collect())
        }
        8 => Barcode(s.one(&[65u8, 73, 79]), noise(s, 255)),
        9 => large_buffer(s),
        _ => {
            let nv = s.chance(1, 2);
            large_def(s, (32, 33), nv)
        }
    }
}

pub fn g_image(s: &mut Src) -> Item {
    if s.chance(1, 2) { g_bit_image(s, 100) } else { g_raster(s, 20, 40) }
}

pub fn digits(s: &mut Src, n: usize) -> Vec<u8> {
    (0..n).map(|_| b'0' + s.below(10) as u8).collect()
}

fn from(s: &mut Src, set: &[u8], n: usize) -> Vec<u8> {
    (0..n).map(|_| s.one(set)).collect()
}

/// kind in the form with explicit length, data
pub fn g_barcode_data(s: &mut Src, max: usize) -> (u8, Vec<u8>) {
    let k = 65 + s.below(9) as u8;
    let d = match k {
        65 => {
            let n = 11 + s.n(2);
            digits(s, n)
        }
        66 => g_upce(s),
        67 => {
            let n = 12 + s.n(2);
            digits(s, n)
        }
        68 => {
            let mut d = digits(s, 7);
            if s.chance(1, 2) {
                let v: Vec<u8> = d.iter().map(|b| b - 48).collect();
                d.push(48 + crate::barcodes::check_digit(&v));
            }
            d
        }
        69 => {
            let n = 1 + s.len(max - 1);
            let mut d = from(s, b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%", n);
            if s.chance(1, 3) {
                d.insert(0, b'*');
                d.push(b'*');
            }
            d
        }
        70 => {
            let most = if s.chance(1, 6) { 60 } else { max.max(4) - 2 };
            let n = 2 + s.len(most);
            digits(s, n)
        }
        71 => {
            let n = s.len(max.max(3) - 1);
            let mut d = vec![s.one(b"ABCD")];
            d.extend(from(s, b"0123456789-$:/.+", n));
            d.push(s.one(b"ABCD"));
            d
        }
        72 => {
            let n = 1 + s.len(max - 1);
            if s.chance(1, 2) {
                from(s, b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%", n)
            } else {
                (0..n).map(|_| s.below(128) as u8).collect()
            }
        }
        _ => g_code128(s, max),
    };
    (k, d)
}

pub fn g_upce(s: &mut Src) -> Vec<u8> {
    match s.below(5) {
        0 => digits(s, 6),
        1 => {
            let mut d = digits(s, 7);
            d[0] = b'0' + s.below(2) as u8;
            d
        }
        2 => {
            let mut d = digits(s, 8);
            d[0] = b'0' + s.below(2) as u8;
            d
        }
        _ => {
            let mut v = vec![s.below(2) as u8];
            v.extend((0..6).map(|_| s.below(10) as u8));
            let mut a = crate::barcodes::upce_expand(&v);
            if s.chance(1, 3) {
                let i = s.n(11);
                a[i] = s.below(10) as u8;
            }
            if s.chance(1, 2) {
                let c = if s.chance(1, 4) { s.below(10) as u8 } else { crate::barcodes::check_digit(&a) };
                a.push(c);
            }
            a.iter().map(|x| x + 48).collect()
        }
    }
}

pub fn g_code128(s: &mut Src, max: usize) -> Vec<u8> {
    let mut d = vec![];
    let mut set = 0;
    loop {
        let other: Vec<u8> = b"ABC".iter().copied().filter(|x| *x != set).collect();
        set = s.one(&other);
        d.extend([b'{', set]);
        let n = 1 + s.len((max / 3).max(1));
        for _ in 0..n {
            if s.chance(1, 10) {
                let f = if set == b'C' { b'1' } else { s.one(b"1234") };
                d.extend([b'{', f]);
                continue;
            }
            if set == b'C' {
                d.extend(digits(s, 2));
                continue;
            }
            let shift = s.chance(1, 12);
            let c = match (set == b'A') != shift {
                true => s.below(96) as u8,
                false => s.u(32, 127) as u8,
            };
            if shift {
                d.extend(b"{S");
            }
            d.push(c);
            if c == b'{' {
                d.push(c);
            }
        }
        if d.len() >= max || s.chance(1, 2) {
            break;
        }
    }
    d
}

/// The form that ends with a NUL when there is one and the data has none
pub fn g_barcode(s: &mut Src, max: usize) -> Item {
    let (k, d) = g_barcode_data(s, max);
    if k <= 71 && s.chance(1, 2) { Barcode(k - 65, d) } else { Barcode(k, d) }
}

/// Data the symbology has no code for
pub fn g_bad_barcode(s: &mut Src) -> Item {
    match s.below(7) {
        0 => {
            let k = s.one(&[65u8, 66, 67, 68]);
            let n = s.one(&[0usize, 1, 5, 9, 10, 14, 20]);
            let d = digits(s, n);
            Barcode(k, d)
        }
        1 => {
            let k = s.one(&[65u8, 66, 67, 68, 70]);
            let n = [11, 12, 12, 7, 6][[65u8, 66, 67, 68, 70].iter().position(|x| *x == k).unwrap()];
            let mut d = digits(s, n);
            let i = s.n(n);
            d[i] = s.one(b"AxZ -:/");
            Barcode(k, d)
        }
        2 => {
            let n = 1 + s.n(4);
            let mut d = from(s, b"ABC123", n);
            d.push(s.one(b"abc!#&(_\x80"));
            Barcode(69, d)
        }
        5 => {
            // asterisks that are not the start or the stop
            let n = s.n(5);
            let mut d = from(s, b"A1*", n);
            let i = s.n(n + 1);
            d.insert(i, b'*');
            if s.chance(1, 2) {
                d.insert(0, b'*');
                d.push(b'*');
            } else if i == 0 {
                d.insert(0, b'*');
            } else if i == n {
                d.push(b'*');
            }
            Barcode(s.one(&[69u8, 4]), d)
        }
        3 => {
            // wrong check digit
            let mut d = digits(s, 7);
            let v: Vec<u8> = d.iter().map(|b| b - 48).collect();
            let c = crate::barcodes::check_digit(&v);
            d.push(48 + (c + 1 + s.below(9) as u8) % 10);
            Barcode(68, d)
        }
        4 => {
            let mut d = s.one(&[&b"{B"[..], b"{A", b"{C12"]).to_vec();
            d.push(s.one(b"\x80\xFF\xC0"));
            Barcode(73, d)
        }
        _ => {
            let k = s.one(&[74u8, 75, 76, 77, 78, 79]);
            let n = s.n(5);
            Barcode(k, digits(s, n))
        }
    }
}

pub fn g_bar_setting(s: &mut Src) -> Item {
    match s.below(4) {
        0 => BarHeight(if s.chance(1, 6) { s.byte() } else { s.u(1, 60) as u8 }),
        1 => BarWidth(if s.chance(1, 5) { s.byte() } else { s.u(2, 6) as u8 }),
        2 => BarFont(g_font(s)),
        _ => Hri(if s.chance(1, 6) { s.bbyte() } else { s.one(&[0u8, 1, 2, 3, 48, 49, 50, 51]) }),
    }
}

pub fn g_qr_data(s: &mut Src, max: usize) -> Vec<u8> {
    let n = match s.below(5) {
        0 => s.n(max.min(4) + 1),
        4 => s.n(max + 1),
        _ => s.n(max.min(40) + 1),
    };
    match s.below(5) {
        0 => digits(s, n),
        1 => from(s, b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:", n),
        2 => s.bytes(n),
        3 => {
            let mut v = vec![];
            while v.len() < n {
                match s.below(4) {
                    0 => v.extend(digits(s, 6)),
                    1 => v.extend(from(s, b"ABCXYZ $%", 6)),
                    2 => v.extend([0x83, 0x40 + s.below(0x30) as u8, 0x8A, 0xBF]),
                    _ => v.push(s.byte()),
                }
            }
            v
        }
        _ => g_ascii(s, n.max(1)),
    }
}

pub fn qr_store(data: &[u8]) -> Item {
    let mut d = vec![48];
    d.extend_from_slice(data);
    Code2d(49, 80, d)
}

pub fn qr_print() -> Item {
    Code2d(49, 81, vec![48])
}

pub fn g_qr_setting(s: &mut Src) -> Item {
    match s.below(3) {
        0 => Code2d(49, 65, vec![if s.chance(1, 8) { s.bbyte() } else { s.one(&[50u8, 49, 51]) }, 0]),
        1 => Code2d(49, 67, vec![s.u(1, 8) as u8]),
        _ => Code2d(49, 69, vec![if s.chance(1, 8) { s.bbyte() } else { s.one(&[48u8, 49, 50, 51]) }]),
    }
}

pub fn gfx_def(nv: bool, column: bool, k: (u8, u8), w: u16, h: u16, layers: &[(u8, Vec<u8>)]) -> Vec<u8> {
    let _ = (nv, column);
    let mut d = vec![48, k.0, k.1, layers.len() as u8];
    d.extend_from_slice(&w.to_le_bytes());
    d.extend_from_slice(&h.to_le_bytes());
    for (c, x) in layers {
        d.push(*c);
        d.extend_from_slice(x);
    }
    d
}

pub fn def_len(column: bool, w: u16, h: u16) -> usize {
    if column {
        crate::model::column_len(w as u32, h as u32)
    } else {
        crate::model::raster_len(w as u32, h as u32)
    }
}

pub fn g_gfx_define(s: &mut Src, nv: bool, k: (u8, u8), max_w: u64, max_h: u64) -> Item {
    let column = s.chance(1, 2);
    let (w, h) = (1 + s.below(max_w) as u16, 1 + s.below(max_h) as u16);
    let n = 1 + s.weighted(&[4, 2, 1]);
    let layers: Vec<(u8, Vec<u8>)> = (0..n).map(|_| (g_color(s), noise(s, def_len(column, w, h)))).collect();
    let f = match (nv, column) {
        (true, false) => 67,
        (true, true) => 68,
        (false, false) => 83,
        (false, true) => 84,
    };
    Gfx(s.chance(1, 3), 48, f, gfx_def(nv, column, k, w, h, &layers))
}

pub fn gfx_print(nv: bool, k: (u8, u8)) -> Item {
    Gfx(false, 48, if nv { 69 } else { 85 }, vec![k.0, k.1, 1, 1])
}

pub fn g_buffer(s: &mut Src, max_w: u64, max_h: u64) -> Item {
    let (w, h) = (1 + s.below(max_w) as u16, 1 + s.below(max_h) as u16);
    buffer_sized(s, w, h)
}

pub fn buffer_sized(s: &mut Src, w: u16, h: u16) -> Item {
    let column = s.chance(1, 2);
    let (sx, sy) = (s.one(&[1u8, 2]), s.one(&[1u8, 2]));
    let mut d = vec![if column { 48 } else { 48 }, sx, sy, g_color(s)];
    d.extend_from_slice(&w.to_le_bytes());
    d.extend_from_slice(&h.to_le_bytes());
    d.extend(noise(s, def_len(column, w, h)));
    Gfx(s.chance(1, 3), 48, if column { 113 } else { 112 }, d)
}

pub fn gfx_flush() -> Item {
    Gfx(false, 48, 50, vec![])
}

/// Commands that have no effect on what is printed, in any mode
pub fn g_noop(s: &mut Src) -> Item {
    match s.below(12) {
        11 => GsG((0..2 + s.len(6)).map(|_| s.bbyte()).collect()),
        0 => Periph(s.bbyte()),
        1 => Pulse(s.one(&[0u8, 1, 48, 49]), s.byte(), s.byte()),
        2 => Sensor(3, s.bbyte()),
        3 => Sensor(4, s.bbyte()),
        4 => Sensor(5, s.bbyte()),
        5 => PrinterId(s.bbyte()),
        6 => Response(s.one(&[48u8, 49]), 48, vec![s.byte(), s.byte(), s.byte(), s.byte()]),
        7 => {
            let n = s.n(6);
            let d = s.bytes(n);
            Response(s.bbyte(), s.bbyte(), d)
        }
        8 => Smooth(s.bbyte()),
        9 => Effects(s.one(&[50u8, 51, 0]), vec![s.byte()]),
        _ => Cut(s.one(&[2u8, 50, 64, 96, 128, 255]), s.byte()),
    }
}

/// Bytes that no command starts with, followed by bytes that are taken with it
pub fn g_unknown(s: &mut Src) -> Item {
    let mut v = match s.below(6) {
        0 => vec![16],
        1 => vec![28],
        2 => vec![27, s.one(b"#%&,.;?AFHIKNOPQXYZ_bfghijklmnoqsuvwxyz")],
        3 => vec![29, s.one(b"\"#%&*+,-.012345679:;<=>?@ACDEFJKLMNOQRSTUWXYZ[]^_`acdegijlmnopqrst")],
        4 => vec![29, b'(', s.one(b"ABCDEFIJMOPQRSTUVWXYZ")],
        _ => vec![29, b'8', s.one(b"ABC")],
    };
    let n = s.len(12);
    for _ in 0..n {
        let b = match s.below(3) {
            0 => s.u(32, 126) as u8,
            1 => s.u(128, 255) as u8,
            _ => s.below(9) as u8,
        };
        v.push(b);
    }
    Raw(v)
}

pub struct Mix {
    pub text: u32,
    pub style: u32,
    pub layout: u32,
    pub feed: u32,
    pub image: u32,
    pub barcode: u32,
    pub qr: u32,
    pub gfx: u32,
    pub page: u32,
    pub noop: u32,
    pub init: u32,
    pub tables: u32,
    pub bad: u32,
    pub ff: u32,
}

pub const MIXED: Mix = Mix {
    text: 10, style: 6, layout: 3, feed: 5, image: 2, barcode: 2, qr: 1, gfx: 2, page: 1, noop: 1, init: 1, tables: 1,
    bad: 1, ff: 0,
};

pub const PLAIN: Mix = Mix {
    text: 10, style: 6, layout: 3, feed: 5, image: 0, barcode: 0, qr: 0, gfx: 0, page: 0, noop: 0, init: 0, tables: 0,
    bad: 0, ff: 0,
};

/// A group of commands of a page: area, direction, positions, content, print
pub fn g_page(s: &mut Src) -> Vec<Item> {
    let mut v = vec![PageMode];
    let n = 1 + s.n(3);
    for _ in 0..n {
        if s.chance(1, 3) {
            v.push(Dir(s.below(4) as u8));
        }
        let (x, y) = (s.below(200) as u16, s.below(120) as u16);
        let (w, h) = (120 + s.below(250) as u16, 120 + s.below(200) as u16);
        v.push(Area(x, y, w, h));
        if s.chance(2, 3) {
            v.push(Dir(s.below(4) as u8));
        }
        let m = 1 + s.n(2);
        for _ in 0..m {
            v.push(Text(g_word(s, 6)));
            v.push(Lf);
        }
    }
    if s.chance(2, 3) {
        v.push(if s.chance(1, 2) { PageFf } else { Ff });
    }
    if !matches!(v.last(), Some(Ff)) {
        v.push(StdMode);
    }
    v
}

/// A whole job of `n` pieces. Sizes are such that pictures stay small.
pub fn g_job(s: &mut Src, n: usize, m: &Mix) -> Vec<Item> {
    let mut v = vec![];
    let w = [
        m.text, m.style, m.layout, m.feed, m.image, m.barcode, m.qr, m.gfx, m.page, m.noop, m.init, m.tables, m.bad, m.ff,
    ];
    for _ in 0..n {
        match s.weighted(&w) {
            0 => v.push(Text(g_ascii(s, 40))),
            1 => v.push(match g_style(s) {
                CharSize(n) => CharSize(n & 0x33),
                i => i,
            }),
            2 => v.push(match s.below(5) {
                0 => g_just(s),
                1 => g_spacing(s),
                2 => g_tab(s),
                3 => Ht,
                _ => g_absx(s, 300),
            }),
            3 => v.push(g_feed(s, false)),
            4 => v.push(g_image(s)),
            5 => {
                if s.chance(1, 2) {
                    v.push(g_bar_setting(s))
                }
                v.push(g_barcode(s, 8))
            }
            6 => {
                for _ in 0..s.n(3) {
                    v.push(g_qr_setting(s));
                }
                if s.chance(4, 5) {
                    let d = g_qr_data(s, 20);
                    v.push(qr_store(&d));
                }
                if s.chance(4, 5) {
                    v.push(qr_print());
                }
            }
            7 => {
                let k = (32 + s.below(3) as u8, 65);
                let nv = s.chance(1, 2);
                match s.below(6) {
                    0 | 1 => v.push(g_gfx_define(s, nv, k, 40, 30)),
                    2 => {
                        v.push(g_gfx_define(s, nv, k, 40, 30));
                        v.push(gfx_print(nv, k));
                    }
                    3 => v.push(gfx_print(nv, k)),
                    4 => {
                        v.push(g_buffer(s, 40, 30));
                        v.push(gfx_flush());
                    }
                    _ => v.push(Gfx(false, 48, if nv { 66 } else { 82 }, vec![k.0, k.1])),
                }
            }
            8 => v.extend(g_page(s)),
            9 => v.push(g_noop(s)),
            10 => v.push(Init),
            11 => v.push(if s.chance(1, 2) { Table(s.one(&[0u8, 1, 2, 5, 11, 13, 255])) } else { Charset(s.below(18) as u8) }),
            12 => v.push(if s.chance(1, 2) { g_unknown(s) } else { g_bad_barcode(s) }),
            _ => v.push(Ff),
        }
    }
    v
}

/// Any command with any parameters, with the data its length calls for
pub fn g_any(s: &mut Src) -> Item {
    let w = |s: &mut Src| if s.chance(1, 2) { s.below(600) as u16 } else { s.below(65536) as u16 };
    match s.below(62) {
        0 | 1 => Text(g_text_bytes(s, 30)),
        2 => Text(g_ascii(s, 30)),
        3 => Lf,
        4 => Cr,
        5 => Ht,
        6 => Ff,
        7 => PageFf,
        8 => Cancel,
        9 => Init,
        10 => PrintMode(s.bbyte()),
        11 => Font(s.bbyte()),
        12 => Emphasis(s.bbyte()),
        13 => Strike(s.bbyte()),
        14 => Underline(s.bbyte()),
        15 => Upside(s.bbyte()),
        16 => Italic(s.bbyte()),
        17 => Table(s.bbyte()),
        18 => Charset(s.bbyte()),
        19 => AltColor(s.bbyte()),
        20 => Invert(s.bbyte()),
        21 => Smooth(s.bbyte()),
        22 => CharSize(s.bbyte()),
        23 => {
            let n = if s.chance(1, 20) { s.u(250, 600) as usize } else { s.len(4) };
            Effects(s.bbyte(), s.bytes(n))
        }
        24 => {
            let n = s.len(32);
            tab_stops(s, n, 255)
        }
        25 => DefaultSpacing,
        26 => Spacing(s.bbyte()),
        27 => BarHeight(s.bbyte()),
        28 => BarWidth(s.bbyte()),
        29 => BarFont(s.bbyte()),
        30 => Hri(s.bbyte()),
        31 => g_motion(s),
        32 => AbsX(w(s)),
        33 => AbsY(w(s)),
        34 => RelY(w(s) as i16),
        35 => StdMode,
        36 => PageMode,
        37 => Area(w(s), w(s), w(s), w(s)),
        38 => Dir(s.bbyte()),
        39 => Just(s.bbyte()),
        40 => FeedLines(s.bbyte()),
        41 => ReverseLines(s.bbyte()),
        42 => FeedDots(s.bbyte()),
        43 => {
            let m = s.bbyte();
            Cut(m, if cut_has_length(m) { s.bbyte() } else { 0 })
        }
        44 => Periph(s.bbyte()),
        45 => Pulse(s.bbyte(), s.bbyte(), s.bbyte()),
        46 => Sensor(3 + s.below(3) as u8, s.bbyte()),
        47 => PrinterId(s.bbyte()),
        48 => {
            let n = s.len(8);
            Response(s.bbyte(), s.bbyte(), s.bytes(n))
        }
        49 => {
            let n = if s.chance(1, 20) { s.u(250, 300) as usize } else { s.len(8) };
            GsG(s.bytes(n))
        }
        50 => g_barcode(s, 20),
        51 => {
            // any data that can be framed
            let m = s.one(&[0u8, 1, 2, 3, 4, 5, 6, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 79]);
            let n = s.len(if m < 7 { 40 } else { 255 });
            let d = if m < 7 { (0..n).map(|_| s.u(1, 255) as u8).collect() } else { s.bytes(n) };
            Barcode(m, d)
        }
        52 => g_bit_image(s, 600),
        53 => g_raster(s, 90, 60),
        54 | 55 => {
            let (cn, f) = s.one(&[
                (48u8, 65u8), (48, 66), (48, 67), (48, 68), (48, 69), (48, 70), (48, 80), (48, 81), (48, 82), (49, 65),
                (49, 67), (49, 69), (49, 80), (49, 81), (49, 82), (50, 65), (50, 80), (50, 81), (50, 82), (51, 67),
                (51, 71), (51, 80), (51, 81), (51, 82), (52, 67), (52, 71), (52, 72), (52, 80), (52, 81), (52, 82),
                (53, 66), (53, 67), (53, 69), (53, 80), (53, 81), (53, 82), (54, 66), (54, 67), (54, 80), (54, 81), (54, 82),
            ]);
            let n = s.len(60);
            Code2d(cn, f, s.bytes(n))
        }
        56 => {
            let d = g_qr_data(s, 300);
            qr_store(&d)
        }
        57 => {
            let nv = s.chance(1, 2);
            let k = (s.byte(), s.byte());
            g_gfx_define(s, nv, k, 60, 40)
        }
        58 => g_buffer(s, 60, 40),
        59 | 60 => {
            let f = s.one(&[0u8, 48, 1, 49, 2, 50, 3, 51, 4, 52, 64, 65, 66, 67, 68, 69, 80, 81, 82, 83, 84, 85, 112, 113]);
            let n = s.len(40);
            Gfx(s.chance(1, 3), if s.chance(1, 4) { s.byte() } else { 48 }, f, s.bytes(n))
        }
        _ => g_unknown(s),
    }
}
