//! C09, C10 and C22: bar codes and QR codes
use super::page::{on_pages, PageGen};
use super::*;
use crate::barcodes as bc;
use crate::canvas::Pic;
use crate::gen::*;
use crate::items::Item::*;
use crate::qr;
use crate::sut::RecDoc;

const GEOMETRY: Aspects = Aspects { x: true, y: true, style: false, chars: true, graphics: true, text: true, lines: false };

fn rects(d: &RecDoc) -> Vec<(u32, u32, u32, u32)> {
    d.evs.iter().filter_map(|(e, _)| if let Ev::Rect { x, y, w, h, .. } = e { Some((*x, *y, *w, *h)) } else { None }).collect()
}

/// Modules of a bar code from its bars: left edge, top, modules
fn bar_modules(r: &[(u32, u32, u32, u32)], w: u32, h: u32) -> Result<(u32, u32, Vec<u8>), String> {
    let x0 = r.iter().map(|r| r.0).min().ok_or("no bars")?;
    let x1 = r.iter().map(|r| r.0 + r.2).max().unwrap();
    let y = r[0].1;
    let mut m = vec![0u8; ((x1 - x0) / w) as usize];
    for b in r {
        if b.1 != y || b.3 != h {
            return Err(format!("bar {:?} is not {} tall at {}", b, h, y));
        }
        if (b.0 - x0) % w != 0 || b.2 % w != 0 {
            return Err(format!("bar {:?} is not a number of {} dot wide modules from {}", b, w, x0));
        }
        for i in 0..b.2 / w {
            let k = ((b.0 - x0) / w + i) as usize;
            if m[k] == 1 {
                return Err(format!("module {} is drawn twice", k));
            }
            m[k] = 1;
        }
    }
    Ok((x0, y, m))
}

fn num(d: &[u8]) -> String {
    d.iter().map(|x| (b'0' + x) as char).collect()
}

/// Decodes modules as a symbology and compares with the data that was sent
fn carries(kind: u8, data: &[u8], m: &[u8]) -> Res {
    let digits: Vec<u8> = data.iter().map(|b| b.wrapping_sub(48)).collect();
    let s = String::from_utf8_lossy(data).to_string();
    let with_check = |d: &[u8]| {
        let mut v = d.to_vec();
        v.push(bc::check_digit(d));
        v
    };
    let (got, want) = match kind {
        65 => {
            let mut d = vec![0];
            d.extend(&digits[..11]);
            (num(&bc::read_ean13(m)?), num(&with_check(&d)))
        }
        66 => (num(&bc::read_upce(m)?), num(&bc::upce_digits(&s).ok_or("no UPC E number")?)),
        67 => (num(&bc::read_ean13(m)?), num(&with_check(&digits[..12]))),
        68 => (num(&bc::read_ean8(m)?), num(&with_check(&digits[..7]))),
        69 => {
            let t = s.strip_prefix('*').unwrap_or(&s);
            (bc::read_code39(m)?, t.strip_suffix('*').unwrap_or(t).to_string())
        }
        70 => {
            let d = if digits.len() % 2 == 1 { with_check(&digits) } else { digits };
            (num(&bc::read_itf(m)?), num(&d))
        }
        71 => (bc::read_codabar(m)?, s.to_uppercase()),
        72 => (bc::read_code93(m)?, s),
        _ => {
            let (_, t, _) = bc::code128_values(data).ok_or("no CODE128 data")?;
            let got = bc::read_code128(m)?;
            if got != t {
                return Err(format!("CODE128 reads as {:?}, expected {:?}", got, t));
            }
            return Ok(());
        }
    };
    if got != want {
        return Err(format!("kind {} reads as {:?}, expected {:?}", kind, got, want));
    }
    Ok(())
}

fn kind_of(k: u8) -> u8 {
    if k < 65 { k + 65 } else { k }
}

/// The bars are read back as the data, no model of the encoding is involved
fn c09_decode(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let (w, h) = (s.u(2, 6), s.u(1, 255));
    let code = g_barcode(s, 12);
    let j = s.below(3) as u8;
    let items = vec![BarWidth(w as u8), BarHeight(h as u8), Just(j), code.clone()];
    let job = send(o, &items);
    let Barcode(k, data) = &code else { unreachable!() };
    let kind = kind_of(*k);
    let out = e.sut.record(&job);
    if !wanted(kind, data) {
        if out.count(Kind::Graphics) != 1 || !rects(&out.docs[0]).is_empty() {
            return Err(format!("data that can't be encoded gives {} bars, reported {:?}", rects(&out.docs[0]).len(), out.errors));
        }
        o.label("can't be encoded");
        return Ok(());
    }
    if !out.errors.is_empty() {
        return Err(format!("reported {:?}", out.errors));
    }
    let r = rects(&out.docs[0]);
    let right = r.iter().map(|r| r.0 + r.2).max().unwrap_or(0);
    // codes that are too wide are cut off at the edge, print those again as narrow as possible
    let (x0, y, m) = bar_modules(&r, w, h)?;
    if y != 60 + 48 {
        return Err(format!("bars start at {}", y));
    }
    if bars(kind, data).map_or(false, |b| b.0.len() as u32 * w > WIDTH) {
        o.label("too wide");
        return Ok(());
    }
    carries(kind, data, &m).map_err(|e| format!("kind {}: {}", kind, e))?;
    let free = WIDTH - m.len() as u32 * w;
    if x0 != [0, free / 2, free][j as usize] {
        return Err(format!("starts at {}, {} wide, alignment {}", x0, right - x0, j));
    }
    if out.docs[0].end_y != 108 + h {
        return Err(format!("ends at {} with bars of {} dots", out.docs[0].end_y, h));
    }
    o.nontrivial = true;
    o.label(&format!("kind {}", kind));
    Ok(())
}

/// Whether data can be encoded, where the generator is not sure
fn wanted(kind: u8, data: &[u8]) -> bool {
    match kind {
        66 => std::str::from_utf8(data).ok().and_then(bc::upce_digits).is_some(),
        _ => true,
    }
}

/// Several codes with all settings, against the model
fn c09_positions(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let n = 1 + s.len(8);
    let mut v = vec![];
    let mut codes = 0;
    for _ in 0..n {
        match s.below(12) {
            0..=3 => v.push(g_bar_setting(s)),
            4 => v.push(g_just(s)),
            5 => v.push(match s.below(6) {
                0 => g_size_small(s),
                1 => g_absx(s, 500),
                2 => g_style(s),
                3 => g_spacing(s),
                4 => g_feed(s, false),
                _ => Text(g_ascii(s, 20)),
            }),
            6 => v.push(g_bad_barcode(s)),
            _ => {
                let p = if s.chance(1, 4) { 40 } else { 10 };
                v.push(g_barcode(s, p));
                codes += 1;
            }
        }
    }
    let (w, job) = layout(e, o, &v, &GEOMETRY)?;
    let r = e.sut.record(&job);
    same_errors(&w.errors, &r)?;
    o.nontrivial = codes > 0;
    o.label_if(!w.errors.is_empty(), "with bad data");
    o.label_if(w.overflow, "cut off");
    o.label_if(v.iter().any(|i| matches!(i, Hri(1..=3 | 49..=51))), "with text");
    Ok(())
}

/// Codes with as much data as their length can say
fn c09_long(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let n = s.one(&[60usize, 128, 200, 240, 253, 254, 255, 255]);
    let kind = s.u(69, 73) as u8;
    let d = match kind {
        69 => vec![s.one(b"A7 "); n],
        70 => digits(s, n),
        71 => {
            let mut d = vec![s.one(b"0-$:"); n];
            d[0] = b'A';
            d[n - 1] = s.one(b"ABCD");
            d
        }
        72 => (0..n).map(|_| s.below(128) as u8).collect(),
        _ => {
            let mut d = vec![b'{', s.one(b"AB")];
            d.resize(n, s.one(b"A5 "));
            d
        }
    };
    let kind = if kind <= 71 && s.chance(1, 2) { kind - 65 } else { kind };
    let mut v = vec![BarWidth(s.u(2, 6) as u8), BarHeight(s.u(1, 255) as u8), Hri(s.below(4) as u8), g_just(s)];
    // along a page there is room for all of it
    let page = s.chance(1, 3);
    if page {
        v.push(PageMode);
        v.push(Area(s.below(100) as u16, s.below(100) as u16, s.u(300, 500) as u16, s.u(2000, 20000) as u16));
        v.push(Dir(s.one(&[1u8, 3])));
    }
    v.push(Barcode(kind, d));
    v.push(Text(b"after".to_vec()));
    v.push(if page { Ff } else { Lf });
    let (w, job) = layout(e, o, &v, &GEOMETRY)?;
    let r = e.sut.record(&job);
    same_errors(&w.errors, &r)?;
    o.nontrivial = true;
    o.label_if(page, "along a page");
    o.label(&format!("{} bytes", n));
    Ok(())
}

pub fn page_bars(s: &mut Src, _p: &PageGen, v: &mut Vec<Item>) {
    match s.below(8) {
        0 => v.push(g_just(s)),
        1 => v.push(Text(g_word(s, 8))),
        2 => v.push(Lf),
        3 => v.push(BarHeight(s.u(1, 60) as u8)),
        4 => v.push(Hri(s.below(4) as u8)),
        5 => v.push(BarWidth(s.u(1, 3) as u8)),
        _ => v.push(g_barcode(s, 5)),
    }
}

/// Bar codes in the areas of pages
fn c09_page(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    on_pages(e, s, o, &GEOMETRY, page_bars).map(|_| ())
}

pub fn page_qr(s: &mut Src, _p: &PageGen, v: &mut Vec<Item>) {
    match s.below(8) {
        0 => v.push(g_just(s)),
        1 => v.push(Text(g_word(s, 8))),
        2 => v.push(Lf),
        3 => v.push(g_qr_setting(s)),
        4 | 5 => {
            let d = g_qr_data(s, 20);
            v.push(qr_store(&d));
        }
        _ => v.push(qr_print()),
    }
}

/// QR codes in the areas of pages
fn c10_page(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let (w, job) = on_pages(e, s, o, &GEOMETRY, page_qr)?;
    if w.above {
        return Ok(());
    }
    let r = e.sut.record(&job);
    same_errors(&w.errors, &r)
}

fn g_size_small(s: &mut Src) -> Item {
    CharSize(g_size(s) & 0x33)
}

fn c09_picture(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let mut v = vec![];
    for _ in 0..s.n(4) {
        v.push(g_bar_setting(s));
    }
    if s.chance(1, 3) {
        v.push(Effects(48, vec![s.one(&[49u8, 50, 51])]));
    }
    v.push(g_just(s));
    v.push(g_barcode(s, 10));
    let job = send(o, &v);
    let w = want(&e.tables, &v);
    o.nontrivial = w.docs[0].ops.len() > 3;
    picture(e, &w, &job)
}

/// Dark columns of the picture are read as the data
fn c09_scan(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let w = s.u(2, 4);
    let h = s.u(4, 60);
    let (kind, data) = g_barcode_data(s, 6);
    let j = s.below(3) as u8;
    let hri = s.below(4) as u8;
    let v = vec![Hri(hri), BarWidth(w as u8), BarHeight(h as u8), Just(j), Barcode(kind, data.clone())];
    let job = send(o, &v);
    let Some((p, _)) = bars(kind, &data) else { return Ok(()) };
    if p.len() as u32 * w > WIDTH {
        return Ok(());
    }
    o.nontrivial = true;
    let pic = e.sut.picture(&job).docs.remove(0);
    let top = if hri & 1 == 1 { 108 + 24 } else { 108 };
    let mut first: Option<Vec<bool>> = None;
    for y in top..top + h {
        let row: Vec<bool> = (0..pic.w).map(|x| pic.get(x as i64, y as i64).map_or(false, |c| c[1] < 128)).collect();
        match &first {
            None => first = Some(row),
            Some(f) if *f != row => return Err(format!("row {} of the bars differs from the first one", y - top)),
            _ => {}
        }
    }
    let row = first.unwrap();
    let a = row.iter().position(|b| *b).ok_or("no bars on the picture")?;
    let z = row.iter().rposition(|b| *b).unwrap() + 1;
    if (z - a) % w as usize != 0 {
        return Err(format!("the code is {} dots wide with modules of {}", z - a, w));
    }
    let mut m = vec![];
    for c in row[a..z].chunks(w as usize) {
        if c.iter().any(|x| *x != c[0]) {
            return Err("a module is not of one color".into());
        }
        m.push(c[0] as u8);
    }
    carries(kind, &data, &m)
}

/// Data with characters that can't be encoded gives an error and no bars
fn c09_invalid(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let bad = g_bad_barcode(s);
    let hri = s.below(4) as u8;
    let items = vec![Hri(hri), Text(b"a".to_vec()), Lf, bad, Text(b"b".to_vec())];
    let job = send(o, &items);
    o.nontrivial = true;
    let r = e.sut.record(&job);
    if r.count(Kind::Graphics) != 1 || r.errors.len() != 1 {
        return Err(format!("reported {:?}", r.errors));
    }
    if !rects(&r.docs[0]).is_empty() {
        return Err("bars are printed".into());
    }
    let t: Vec<(char, u32)> = r.docs[0].evs.iter().filter_map(|(e, _)| if let Ev::Cell(c) = e { Some((c.ch, c.y)) } else { None }).collect();
    if t != vec![('a', 108), ('b', 132)] {
        return Err(format!("text printed is {:?}", t));
    }
    Ok(())
}

/// Every value of a byte in the symbologies that take characters
fn c09_alphabet(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let b = s.index as u8;
    let kind = [69u8, 72, 73, 73, 73, 71, 70, 65][(s.index >> 8) as usize % 8];
    let which = s.index >> 8;
    let data = match which {
        0 => vec![b'A', b, b'1'],
        1 => vec![b'a', b, b'1'],
        2 => vec![b'{', b'A', b'0', b],
        3 => vec![b'{', b'B', b'0', b],
        4 => vec![b'{', b'C', b'0', b'7', b, b'5'],
        5 => vec![b'A', b'3', b, b'B'],
        6 => vec![b'1', b, b'3', b'4'],
        _ => vec![b'1', b'2', b'3', b'4', b'5', b, b'7', b'8', b'9', b'0', b'1'],
    };
    // what an escape stands for is tested elsewhere
    if kind == 73 && b == b'{' {
        return Ok(());
    }
    // start and stop characters in the middle
    if kind == 71 && b"ABCDabcdeEnNtT*".contains(&b) || kind == 69 && b == b'*' {
        return Ok(());
    }
    let ok = match kind {
        69 => b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%".contains(&b),
        72 => b < 128,
        73 => match which {
            2 => b < 96,
            3 => (32..128).contains(&b),
            _ => b.is_ascii_digit(),
        },
        71 => b"0123456789-$:/.+".contains(&b),
        _ => b.is_ascii_digit(),
    };
    o.nontrivial = true;
    o.label_if(ok, "can be encoded");
    let items = vec![BarWidth(2), Barcode(kind, data.clone())];
    let job = send(o, &items);
    let r = e.sut.record(&job);
    let q = rects(&r.docs[0]);
    if !ok {
        if r.count(Kind::Graphics) != 1 || !q.is_empty() {
            return Err(format!("kind {} with byte {} prints {} bars, reported {:?}", kind, b, q.len(), r.errors));
        }
        return Ok(());
    }
    if !r.errors.is_empty() {
        return Err(format!("kind {} with byte {}: {:?}", kind, b, r.errors));
    }
    let (_, _, m) = bar_modules(&q, 2, 40)?;
    carries(kind, &data, &m)
}

// ---------------------------------------------------------------- C10

/// Modules of a square symbol: left, top, width in modules, modules
fn qr_modules(r: &[(u32, u32, u32, u32)], size: u32) -> Result<(u32, u32, usize, Vec<bool>), String> {
    let x0 = r.iter().map(|r| r.0).min().ok_or("no symbol")?;
    let y0 = r.iter().map(|r| r.1).min().unwrap();
    let x1 = r.iter().map(|r| r.0 + r.2).max().unwrap();
    let w = ((x1 - x0) / size) as usize;
    let mut m = vec![false; w * w];
    for b in r {
        if (b.0 - x0) % size != 0 || (b.1 - y0) % size != 0 || b.2 % size != 0 || b.3 % size != 0 {
            return Err(format!("{:?} is not made of modules of {} dots", b, size));
        }
        for dy in 0..b.3 / size {
            for dx in 0..b.2 / size {
                let k = ((b.1 - y0) / size + dy) as usize * w + ((b.0 - x0) / size + dx) as usize;
                if k >= m.len() {
                    return Err("the symbol is taller than wide".into());
                }
                if m[k] {
                    return Err("a module is drawn twice".into());
                }
                m[k] = true;
            }
        }
    }
    Ok((x0, y0, w, m))
}

fn check_symbol(w: usize, m: &[bool], model: u8, level: u8, data: &[u8]) -> Result<qr::Symbol, String> {
    let q = qr::read(w, m)?;
    if q.data != data {
        return Err(format!("the symbol reads as {:02x?}, stored were {:02x?}", q.data, data));
    }
    if q.micro != (model == 51) {
        return Err(format!("micro symbol: {}, model {}", q.micro, model));
    }
    // micro symbols of the smallest version only detect errors
    if q.level != 4 && q.level < level || q.level == 4 && level > 0 {
        return Err(format!("error correction level {}, selected {}", q.level, level));
    }
    Ok(q)
}

fn c10_symbol(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let model = s.one(&[50u8, 49, 51]);
    let level = s.below(4) as u8;
    let size = s.u(1, 8);
    let j = s.below(3) as u8;
    let lb = if s.chance(1, 4) { level } else { 48 + level };
    // most sizes are possible, some are too much for the symbol
    let max = match model {
        51 => 18,
        50 if s.chance(1, 6) => 3000,
        49 if s.chance(1, 6) => 600,
        _ => 120,
    };
    let data = g_qr_data(s, max);
    let mut set = vec![Code2d(49, 65, vec![model, 0]), Code2d(49, 67, vec![size as u8]), Code2d(49, 69, vec![lb])];
    // the order of settings makes no difference
    let k = s.n(3);
    set.rotate_left(k);
    set.push(Just(j));
    set.push(qr_store(&data));
    set.push(qr_print());
    let job = send(o, &set);
    let out = e.sut.record(&job);
    let r = rects(&out.docs[0]);
    let Some(q) = qr_symbol(model, level, size, &data) else {
        o.label("does not fit");
        if data.len() <= qr::max_bytes(model, level as usize) && !(model == 51 && level == 3) {
            return Err(format!("harness: {} bytes should fit", data.len()));
        }
        if !r.is_empty() || out.count(Kind::Graphics) != 1 || out.errors.len() != 1 {
            return Err(format!("data that does not fit prints {} modules, reported {:?}", r.len(), out.errors));
        }
        return Ok(());
    };
    if !out.errors.is_empty() {
        return Err(format!("reported {:?}", out.errors));
    }
    let full = q.width * size;
    o.nontrivial = true;
    if full > WIDTH {
        o.label("cut off");
        // the same symbol with dots of one shows what the part should be
        let mut small = set.clone();
        for i in small.iter_mut() {
            match i {
                Code2d(49, 67, d) => d[0] = 1,
                Just(n) => *n = 0,
                _ => {}
            }
        }
        let out1 = e.sut.record(&encode(&small));
        let (_, _, w, m) = qr_modules(&rects(&out1.docs[0]), 1)?;
        check_symbol(w, &m, model, level, &data)?;
        let cols = WIDTH / size;
        let mut want: Vec<(u32, u32)> = vec![];
        for (i, b) in m.iter().enumerate() {
            if *b && (i % w) < cols as usize {
                want.push(((i % w) as u32 * size, 108 + (i / w) as u32 * size));
            }
        }
        let mut got: Vec<(u32, u32)> = vec![];
        for b in &r {
            for dx in 0..b.2 / size {
                got.push((b.0 + dx * size, b.1));
            }
        }
        got.sort_by_key(|p| (p.1, p.0));
        if got != want {
            let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            return Err(format!("the part that fits is wrong at module {}: {:?}, expected {:?}", i, got.get(i), want.get(i)));
        }
    } else {
        let (x0, y0, w, m) = qr_modules(&r, size)?;
        let sym = check_symbol(w, &m, model, level, &data)?;
        o.label(if sym.micro { "micro" } else { "normal" });
        o.label(&format!("version {}", match sym.version { 0..=6 => "1-6", 7..=14 => "7-14", _ => "15-40" }));
        o.label(&format!("modes {:?}", sym.modes.iter().take(3).collect::<Vec<_>>()));
        let free = WIDTH - w as u32 * size;
        if x0 != [0, free / 2, free][j as usize] || y0 != 108 {
            return Err(format!("the symbol is at {},{}", x0, y0));
        }
        if w as u32 != q.width {
            o.label("other version than the model");
        }
        if out.docs[0].end_y != 108 + w as u32 * size {
            return Err(format!("the paper ends at {} after a symbol of {}", out.docs[0].end_y, w as u32 * size));
        }
    }
    Ok(())
}

/// Stores, prints and changes of settings in any order
fn c10_history(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let n = 2 + s.len(14);
    let mut v = vec![];
    let mut prints = 0;
    for _ in 0..n {
        match s.below(16) {
            0..=2 => v.push(g_qr_setting(s)),
            3..=6 => {
                let max = if s.chance(1, 8) { 700 } else { 25 };
                let d = g_qr_data(s, max);
                v.push(qr_store(&d));
            }
            7..=11 => {
                v.push(qr_print());
                prints += 1;
            }
            12 => v.push(g_just(s)),
            13 => v.push(match s.below(4) {
                0 => Init,
                1 => Text(g_word(s, 6)),
                2 => g_noop(s),
                _ => Lf,
            }),
            14 => {
                // other codes have stores of their own
                let cn = s.one(&[48u8, 50, 51, 52, 53, 54]);
                let k = s.len(10);
                v.push(Code2d(cn, 80, s.bytes(k)));
            }
            _ => v.push(Code2d(49, 82, vec![48])),
        }
    }
    o.nontrivial = prints > 1;
    let job = send(o, &v);
    // symbols one by one
    let out = e.sut.record(&job);
    let mut st = State::power_on();
    let mut stored: Option<(Vec<u8>, u8, u8, u32, u32)> = None;
    let mut want: Vec<(Vec<u8>, u8, u8, u32, crate::model::Just)> = vec![];
    let mut errors = 0;
    for i in &v {
        match i {
            Item::Init => {
                st = State::power_on();
                stored = None;
            }
            Item::Just(n) => {
                st.just = match n {
                    1 | 49 => crate::model::Just::Center,
                    2 | 50 => crate::model::Just::Right,
                    _ => crate::model::Just::Left,
                }
            }
            Code2d(49, 65, d) => st.qr_model = if d[0] == 50 || d[0] == 51 { d[0] } else { 49 },
            Code2d(49, 67, d) => st.qr_size = d[0] as u32,
            Code2d(49, 69, d) => {
                st.qr_level = match d[0] {
                    1 | 49 => 1,
                    2 | 50 => 2,
                    3 | 51 => 3,
                    _ => 0,
                }
            }
            Code2d(49, 80, d) => {
                stored = qr_symbol(st.qr_model, st.qr_level, st.qr_size, &d[1..])
                    .map(|q| (d[1..].to_vec(), st.qr_model, st.qr_level, st.qr_size, q.width));
            }
            Code2d(49, 81, _) => match &stored {
                None => errors += 1,
                Some(x) if x.4 * x.3 <= WIDTH => want.push((x.0.clone(), x.1, x.2, x.3, st.just)),
                // those that are cut off are another check
                Some(_) => return Ok(()),
            },
            _ => {}
        }
    }
    if out.count(Kind::Graphics) != errors || out.errors.len() != errors {
        return Err(format!("{} prints without a symbol, reported {:?}", errors, out.errors));
    }
    // rectangles of a symbol follow each other without text between, split by rows going up or past the end
    let all = rects(&out.docs[0]);
    let mut at = 0;
    for (i, (data, model, level, size, just)) in want.iter().enumerate() {
        if at >= all.len() {
            return Err(format!("symbol {} is missing", i));
        }
        let top = all[at].1;
        // the finder pattern at the lower left gives its height through the width of the top row
        let row: Vec<&(u32, u32, u32, u32)> = all[at..].iter().take_while(|r| r.1 == top).collect();
        let (a, z) = (row.iter().map(|r| r.0).min().unwrap(), row.iter().map(|r| r.0 + r.2).max().unwrap());
        let side = z - a;
        let part: Vec<(u32, u32, u32, u32)> = all[at..].iter().copied().take_while(|r| r.1 >= top && r.1 < top + side).collect();
        at += part.len();
        let (x0, _, w, m) = qr_modules(&part, *size).map_err(|m| format!("symbol {}: {}", i, m))?;
        check_symbol(w, &m, *model, *level, data).map_err(|m| format!("symbol {}: {}", i, m))?;
        let free = WIDTH - w as u32 * size;
        let x = match just {
            crate::model::Just::Left => 0,
            crate::model::Just::Center => free / 2,
            crate::model::Just::Right => free,
        };
        if x0 != x {
            return Err(format!("symbol {} is at {}, expected {}", i, x0, x));
        }
    }
    if at != all.len() {
        return Err("more symbols than printed".into());
    }
    Ok(())
}

fn c10_picture(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let model = s.one(&[50u8, 49, 51]);
    let level = s.below(4) as u8;
    let size = s.u(1, 12);
    let j = s.below(3) as u8;
    let data = g_qr_data(s, if model == 51 { 12 } else { 150 });
    let v = vec![
        Code2d(49, 65, vec![model, 0]), Code2d(49, 67, vec![size as u8]), Code2d(49, 69, vec![48 + level]), Just(j),
        Text(b"x".to_vec()), Lf, qr_store(&data), qr_print(), Text(b"x".to_vec()),
    ];
    let job = send(o, &v);
    let Some(q) = qr_symbol(model, level, size, &data) else { return Ok(()) };
    let pic: Pic = e.sut.picture(&job).docs.remove(0);
    let side = q.width * size;
    if side > WIDTH {
        let w = want(&e.tables, &v);
        o.label("cut off");
        return picture(e, &w, &job);
    }
    o.nontrivial = true;
    let free = WIDTH - side;
    let x0 = 20 + [0, free / 2, free][j as usize];
    let mut m = vec![];
    for y in 0..q.width {
        for x in 0..q.width {
            let c = pic.get((x0 + x * size) as i64, (132 + y * size) as i64).ok_or("the picture is too short")?;
            for dy in 0..size {
                for dx in 0..size {
                    if pic.get((x0 + x * size + dx) as i64, (132 + y * size + dy) as i64) != Some(c) {
                        return Err(format!("module {},{} is not of one color", x, y));
                    }
                }
            }
            m.push(c[0] < 128);
        }
    }
    check_symbol(q.width as usize, &m, model, level, &data)?;
    // nothing around it
    for y in 132..132 + side {
        for x in 0..pic.w {
            if (x < x0 || x >= x0 + side) && pic.at(x, y) != PAPER {
                return Err(format!("ink beside the symbol at {},{}", x, y));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C22

/// Prints many codes in one job and reads what each one carries
fn upce_batch(e: &mut Env, codes: &[String]) -> Result<Vec<Option<Vec<u8>>>, String> {
    let mut v = vec![BarHeight(10), BarWidth(2)];
    for c in codes {
        v.push(Barcode(66, c.as_bytes().to_vec()));
        v.push(FeedDots(1));
    }
    let r = e.sut.record(&encode(&v));
    let all = rects(&r.docs[0]);
    let mut out = vec![];
    let mut at = 0;
    // a code that is printed takes ten rows, the feed one more
    let mut y = 108;
    for (i, c) in codes.iter().enumerate() {
        let n = all[at..].iter().take_while(|r| r.1 == y).count();
        if n == 0 {
            out.push(None);
            y += 1;
            continue;
        }
        let (x0, _, m) = bar_modules(&all[at..at + n], 2, 10)?;
        if x0 != 0 {
            return Err(format!("code {} does not start at the left", i));
        }
        out.push(Some(bc::read_upce(&m).map_err(|e| format!("{}: {}", c, e))?));
        at += n;
        y += 11;
    }
    if at != all.len() {
        return Err("bars outside of the codes".into());
    }
    let bad = out.iter().filter(|x| x.is_none()).count();
    if r.count(Kind::Graphics) != bad || r.errors.len() != bad {
        return Err(format!("{} of {} codes are not printed, {} reported", bad, codes.len(), r.errors.len()));
    }
    Ok(out)
}

fn upce_check(e: &mut Env, codes: &[String]) -> Result<usize, String> {
    let got = upce_batch(e, codes)?;
    let mut printed = 0;
    for (c, g) in codes.iter().zip(got) {
        let ok = c.bytes().all(|b| b.is_ascii_digit()) && [6, 7, 8, 11, 12].contains(&c.len());
        let d: Vec<u8> = c.bytes().map(|b| b.wrapping_sub(48)).collect();
        let want = if ok { bc::upce_digits(c) } else { None };
        match (&g, &want) {
            (None, None) => {}
            (Some(g), None) => return Err(format!("{:?} can't be written as UPC E but prints {:?}", c, g)),
            (None, Some(w)) => return Err(format!("{:?} is not printed, it is {:?}", c, w)),
            (Some(g), Some(_)) => {
                printed += 1;
                // the number the code stands for
                let mut full: Vec<u8> = match d.len() {
                    6 => {
                        let mut v = vec![0];
                        v.extend(&d);
                        bc::upce_expand(&v)
                    }
                    7 | 8 => bc::upce_expand(&d),
                    _ => d[..11].to_vec(),
                };
                let check = match d.len() {
                    8 => d[7],
                    12 => d[11],
                    _ => bc::check_digit(&full),
                };
                let mut read = bc::upce_expand(g);
                full.push(check);
                read.push(g[7]);
                if full != read {
                    return Err(format!("{:?} is the number {} but prints {} ({})", c, num(&full), num(&read), num(g)));
                }
            }
        }
    }
    Ok(printed)
}

fn run_batch(e: &mut Env, o: &mut Obs, codes: Vec<String>) -> Res {
    o.job(codes.join(" ").as_bytes());
    o.desc(|| format!("{} ... {}", codes[0], codes[codes.len() - 1]));
    match upce_check(e, &codes) {
        Ok(n) => {
            o.nontrivial = true;
            for _ in 0..n {
                o.label("printed");
            }
            for _ in n..codes.len() {
                o.label("rejected");
            }
            Ok(())
        }
        Err(m) => {
            // find the one
            for c in &codes {
                if let Err(m) = upce_check(e, std::slice::from_ref(c)) {
                    return Err(m);
                }
            }
            Err(m)
        }
    }
}

fn c22_six(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let codes = (0..100).map(|i| format!("{:06}", s.index * 100 + i)).collect();
    run_batch(e, o, codes)
}

fn c22_seven(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    // number systems 0 and 1, the others are rejected
    let codes = (0..100)
        .map(|_| format!("{}{:06}", if s.chance(1, 10) { s.below(10) } else { s.below(2) }, s.below(1_000_000)))
        .collect();
    run_batch(e, o, codes)
}

fn c22_eight(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let codes = (0..100)
        .map(|_| format!("{}{:06}{}", if s.chance(1, 10) { s.below(10) } else { s.below(2) }, s.below(1_000_000), s.below(10)))
        .collect();
    run_batch(e, o, codes)
}

fn c22_long(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let codes = (0..40)
        .map(|_| {
            let mut a: Vec<u8> = vec![if s.chance(1, 12) { s.below(10) as u8 } else { s.below(2) as u8 }];
            match s.below(4) {
                0 => a.extend((0..10).map(|_| s.below(10) as u8)),
                1 => {
                    // many zeros
                    a.extend((0..10).map(|_| if s.chance(1, 3) { s.below(10) as u8 } else { 0 }));
                }
                _ => {
                    let mut v = vec![a[0].min(1)];
                    v.extend((0..6).map(|_| s.below(10) as u8));
                    let keep = a[0];
                    a = bc::upce_expand(&v);
                    a[0] = keep;
                    // one digit off
                    if s.chance(1, 2) {
                        let i = 1 + s.n(10);
                        a[i] = s.below(10) as u8;
                    }
                }
            }
            if s.chance(1, 2) {
                let c = if s.chance(1, 2) { bc::check_digit(&a) } else { s.below(10) as u8 };
                a.push(c);
            }
            num(&a)
        })
        .collect();
    run_batch(e, o, codes)
}

/// All numbers made of few different digits, which meet every rule's edges
fn c22_patterns(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let codes = (0..100u64)
        .map(|i| {
            // manufacturer and product digits from a set of the telling ones
            let mut k = s.index * 100 + i;
            let set = [0u8, 2, 3, 4, 5, 9];
            let mut a = vec![(k % 2) as u8];
            k /= 2;
            for p in 0..10 {
                // the first digits make no difference, half of the others are zero
                let x = if p < 2 {
                    7
                } else if (3..=8).contains(&p) && p != 3 && p != 4 {
                    let z = [0u8, 0, 0, 1][(k % 4) as usize];
                    k /= 4;
                    z
                } else {
                    let z = set[(k % 6) as usize];
                    k /= 6;
                    z
                };
                a.push(x);
            }
            num(&a)
        })
        .collect();
    run_batch(e, o, codes)
}

fn c22_malformed(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let codes = (0..20)
        .map(|_| {
            let n = match s.below(3) {
                0 => s.one(&[0usize, 1, 2, 3, 4, 5, 9, 10, 13, 14, 20]),
                _ => s.one(&[6usize, 7, 8, 11, 12]),
            };
            let mut t: Vec<u8> = (0..n).map(|_| b'0' + s.below(10) as u8).collect();
            if n > 0 && s.chance(2, 3) {
                let i = s.n(n);
                t[i] = s.one(b"aX -:/+.,;<A~!");
            }
            if n > 0 && t[0].is_ascii_digit() && s.chance(1, 2) {
                t[0] = b'0' + s.below(2) as u8;
            }
            String::from_utf8(t).unwrap()
        })
        .collect();
    run_batch(e, o, codes)
}

pub fn props() -> Vec<Prop<Env>> {
    vec![
        Prop {
            id: "C09",
            rule: "a case is non-trivial when a bar code is decoded, or invalid data is sent; distinct by the bytes sent",
            assumptions: &[
                "bar codes wider than the paper are compared with the model of the encoding, not decoded",
                "Codabar without start and stop characters, and CODE128 escapes that are not defined, are not generated",
            ],
            subs: vec![
                sub("page", c09_page, 15_000, 200_000),
                sub("decode", c09_decode, 300_000, 1_500_000),
                sub("long", c09_long, 20_000, 200_000),
                sub("positions", c09_positions, 120_000, 500_000),
                sub("invalid", c09_invalid, 60_000, 300_000),
                all("alphabet", c09_alphabet, 8 * 256),
                sub("scan", c09_scan, 8_000, 60_000),
                sub("picture", c09_picture, 9_000, 40_000),
            ],
        },
        Prop {
            id: "C10",
            rule: "a case is non-trivial when a symbol is decoded, for histories when at least two prints are sent; distinct by the bytes sent",
            assumptions: &["which data fits a symbol is taken from the QR library; what the symbol carries is read by an own decoder"],
            subs: vec![
                sub("page", c10_page, 6_000, 100_000),
                sub("symbol", c10_symbol, 25_000, 150_000),
                sub("history", c10_history, 25_000, 150_000),
                sub("picture", c10_picture, 3_000, 25_000),
            ],
        },
        Prop {
            id: "C22",
            rule: "a case is a batch of 20 to 100 numbers and always non-trivial; distinct by the numbers; the classes count numbers",
            assumptions: &["a check digit that is sent is printed as it is"],
            subs: vec![
                all("six_digits", c22_six, 10_000),
                sub("seven_digits", c22_seven, 30_000, 200_000),
                sub("eight_digits", c22_eight, 30_000, 200_000),
                sub("long", c22_long, 90_000, 500_000),
                all("patterns", c22_patterns, 2 * 1296 * 256 / 100 + 1),
                sub("malformed", c22_malformed, 60_000, 300_000),
            ],
        },
    ]
}
