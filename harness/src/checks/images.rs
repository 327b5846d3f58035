//! C11 and C12: images and stored graphics
use super::page::{on_pages, PageGen};
use super::*;
use crate::gen::*;
use crate::items::Item::*;

const IMAGES: Aspects = Aspects { x: true, y: true, style: false, chars: false, graphics: true, text: false, lines: false };

pub fn g_image_job(s: &mut Src, max: usize) -> Vec<Item> {
    let n = 1 + s.len(max);
    let mut v = vec![];
    for _ in 0..n {
        match s.below(12) {
            0..=2 => v.push(g_bit_image(s, 320)),
            3..=5 => v.push(g_raster(s, 80, 60)),
            6 => v.push(g_just(s)),
            7 => v.push(g_absx(s, 400)),
            8 => v.push(Text(g_word(s, 20))),
            9 => v.push(g_feed(s, false)),
            10 => v.push(g_spacing(s)),
            _ => v.push(g_style(s)),
        }
    }
    v
}

fn images(w: &Want) -> usize {
    w.docs.iter().flat_map(|d| &d.ops).filter(|o| matches!(o, Op::Draw(Ev::Img { b, .. }) | Op::PageDraw(_, Ev::Img { b, .. }) if b.w * b.h > 0)).count()
}

fn c11_dots(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let v = g_image_job(s, 8);
    let (w, job) = layout(e, o, &v, &IMAGES)?;
    let r = e.sut.record(&job);
    same_errors(&w.errors, &r)?;
    o.nontrivial = images(&w) > 0;
    o.label_if(w.overflow, "clipped");
    for i in &v {
        match i {
            BitImage(m, ..) => o.label(&format!("bit image mode {}", if [0, 1, 32, 33].contains(m) { *m } else { 255 })),
            Raster(m, ..) => o.label(&format!("raster mode {}", if m % 48 < 4 { *m } else { 255 })),
            _ => {}
        }
    }
    Ok(())
}

fn c11_picture(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let v = g_image_job(s, 5);
    let job = send(o, &v);
    let w = want(&e.tables, &v);
    if height(&w) > 3000 {
        return Ok(());
    }
    o.nontrivial = images(&w) > 0;
    picture(e, &w, &job)
}

/// Sizes and modes around the edges of bytes and of the paper
fn c11_sizes(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let j = Just(s.below(3) as u8);
    let item = if s.chance(1, 2) {
        let m = s.one(&[0u8, 1, 2, 3, 48, 49, 50, 51]);
        let w = s.one(&[0u64, 1, 2, 9, 10, 37, 38, 39, 75, 76, 77, 80]);
        let h = s.one(&[0u64, 1, 2, 7, 8, 9, 24, 33]);
        let data = g_bits(s, (w * h) as usize);
        Raster(m, w as u16, h as u16, data)
    } else {
        let m = s.one(&[0u8, 1, 32, 33]);
        let w = s.one(&[0u64, 1, 2, 8, 303, 304, 305, 607, 608, 609, 610, 700]);
        let k = if m >= 32 { 3 } else { 1 };
        let data = g_bits(s, (w * k) as usize);
        BitImage(m, w as u16, data)
    };
    let mut v = vec![j];
    if s.chance(1, 2) {
        v.push(AbsX(s.one(&[0u16, 1, 100, 304, 608, 609, 640])));
    }
    v.push(item);
    if s.chance(1, 2) {
        v.push(Text(b"z".to_vec()));
    }
    let job = send(o, &v);
    let w = want(&e.tables, &v);
    let r = e.sut.record(&job);
    cmp::docs(&w.docs, &r.docs, &IMAGES)?;
    o.nontrivial = images(&w) > 0;
    if s.chance(1, 3) {
        picture(e, &w, &job)?;
    }
    Ok(())
}

pub fn page_images(s: &mut Src, p: &PageGen, v: &mut Vec<Item>) {
    match s.below(10) {
        0 => v.push(g_just(s)),
        1 => v.push(Text(g_word(s, 8))),
        2 => v.push(Lf),
        3 => v.push(AbsX(s.below(p.w.min(p.h) as u64 + 1) as u16)),
        4 => v.push(AbsY(s.below(p.w.min(p.h) as u64 + 1) as u16)),
        5..=7 => v.push(g_bit_image(s, 70)),
        _ => v.push(g_raster(s, 10, 30)),
    }
}

/// Images in the areas of pages
fn c11_page(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    on_pages(e, s, o, &IMAGES, page_images).map(|_| ())
}

pub fn page_graphics(s: &mut Src, p: &PageGen, v: &mut Vec<Item>) {
    let nv = s.chance(1, 2);
    match s.below(10) {
        0 => v.push(g_just(s)),
        1 => v.push(Text(g_word(s, 8))),
        2 => v.push(Lf),
        3 => v.push(AbsX(s.below(p.w.min(p.h) as u64 + 1) as u16)),
        4 => v.push(AbsY(s.below(p.w.min(p.h) as u64 + 1) as u16)),
        5 => v.push(buffer_sized(s, 16, 8)),
        6 => v.push(gfx_flush()),
        7 => v.push(g_gfx_define(s, nv, (32, 33), 30, 20)),
        _ => v.push(gfx_print(nv, (32, 33))),
    }
}

/// Stored graphics on pages
fn c12_page(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let (w, job) = on_pages(e, s, o, &IMAGES, page_graphics)?;
    if w.above {
        return Ok(());
    }
    let r = e.sut.record(&job);
    same_errors(&w.errors, &r)
}

/// Images so wide or high that their sizes need both bytes
fn c11_large(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let item = if s.chance(3, 4) {
        g_large_raster(s, 2100)
    } else {
        let m = s.one(&[0u8, 1, 32, 33]);
        let w = s.one(&[255u16, 256, 257, 511, 512, 513, 767, 768, 1024, 2000]);
        let k = if m >= 32 { 3 } else { 1 };
        BitImage(m, w, g_bits(s, w as usize * k))
    };
    let v = vec![Text(b"a".to_vec()), Lf, item, Text(b"z".to_vec())];
    let job = send(o, &v);
    let w = want(&e.tables, &v);
    let r = e.sut.record(&job);
    cmp::docs(&w.docs, &r.docs, &IMAGES)?;
    o.nontrivial = images(&w) > 0;
    if s.chance(1, 4) {
        picture(e, &w, &job)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C12

pub fn g_store_job(s: &mut Src, max: usize) -> Vec<Item> {
    let n = 3 + s.len(max);
    let mut v = vec![];
    // few keys so that they meet again
    let keys: Vec<(u8, u8)> = (0..1 + s.n(3)).map(|_| if s.chance(1, 3) { (s.byte(), s.byte()) } else { g_key(s) }).collect();
    for _ in 0..n {
        let k = *s.pick(&keys);
        let nv = s.chance(1, 2);
        match s.below(24) {
            0..=5 => v.push(g_gfx_define(s, nv, k, 30, 20)),
            6..=12 => v.push(gfx_print(nv, k)),
            13 => v.push(Gfx(false, 48, if nv { 66 } else { 82 }, vec![k.0, k.1])),
            14 => v.push(Gfx(false, 48, if nv { 65 } else { 81 }, if nv { b"CLR".to_vec() } else { b"CLR".to_vec() })),
            15 => v.push(Init),
            16 | 17 => {
                let (w, h) = (s.one(&[8u16, 9, 20]), s.one(&[8u16, 10]));
                v.push(buffer_sized(s, w, h));
            }
            18 | 19 => v.push(Gfx(s.chance(1, 4), 48, s.one(&[2u8, 50]), vec![])),
            20 => {
                // data that does not fit its header
                let mut i = if s.chance(1, 2) { g_gfx_define(s, nv, k, 20, 10) } else { g_buffer(s, 20, 10) };
                if let Gfx(_, _, _, d) = &mut i {
                    if s.chance(1, 2) {
                        let n = s.n(d.len() + 1);
                        d.truncate(n);
                    } else {
                        d.push(0xAA);
                    }
                }
                v.push(i);
            }
            21 => v.push(g_just(s)),
            22 => v.push(match s.below(4) {
                0 => Ff,
                1 => Text(g_word(s, 6)),
                2 => g_style(s),
                _ => g_feed(s, false),
            }),
            _ => v.push(match s.below(3) {
                0 => PageMode,
                1 => StdMode,
                _ => g_noop(s),
            }),
        }
    }
    v
}

fn c12_history(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let v = g_store_job(s, 26);
    let (w, job) = layout(e, o, &v, &IMAGES)?;
    let r = e.sut.record(&job);
    same_errors(&w.errors, &r)?;
    let n = images(&w);
    o.nontrivial = n > 0;
    o.label_if(n > 1, "several prints");
    o.label_if(v.iter().any(|i| matches!(i, Init)), "initialise");
    o.label_if(!w.errors.is_empty(), "with errors");
    Ok(())
}

/// Marks a picture of layers
const LAYERS: u32 = 1 << 20;

/// A store that knows nothing of pictures: which definition is printed
fn c12_keys(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    store(e, s, o, false)
}

/// The same with hundreds of keys and layers
fn c12_many(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    store(e, s, o, true)
}

fn store(e: &mut Env, s: &mut Src, o: &mut Obs, many: bool) -> Res {
    let n = if many { 300 + s.n(900) } else { 4 + s.len(40) };
    // everything is forgotten once in so many commands
    let forget = if many { 300 } else { 1 };
    let mut v = vec![];
    let mut store: std::collections::HashMap<(bool, u8, u8), u32> = Default::default();
    let mut want: Vec<u32> = vec![];
    let mut buffer: Vec<u32> = vec![];
    let mut next = 1u32;
    let (a, b) = (s.byte(), s.byte());
    let mut parts = vec![a, b, s.one(&[32u8, 0, 255])];
    if many {
        let k = s.one(&[2u8, 6, 40]);
        parts.extend((0..k).map(|_| s.byte()));
    }
    for _ in 0..n {
        let nv = s.chance(1, 2);
        let k = (*s.pick(&parts), *s.pick(&parts));
        let what = match s.below(14) {
            9 | 10 if !s.chance(1, forget) => 0,
            12 | 13 if many && !s.chance(1, 40) => 11,
            x => x,
        };
        match what {
            0..=3 => {
                // its width says which definition it is
                let (w, h) = (next % 500 + 1, next / 500 + 1);
                let column = s.chance(1, 2);
                let d = gfx_def(nv, column, k, w as u16, h as u16, &[(49, vec![0xFF; def_len(column, w as u16, h as u16)])]);
                v.push(Gfx(s.chance(1, 4), 48, (if nv { 67 } else { 83 }) + column as u8, d));
                store.insert((nv, k.0, k.1), next);
                next += 1;
            }
            4..=7 => {
                v.push(gfx_print(nv, k));
                if let Some(x) = store.get(&(nv, k.0, k.1)) {
                    want.push(*x);
                }
            }
            8 => {
                v.push(Gfx(false, 48, if nv { 66 } else { 82 }, vec![k.0, k.1]));
                store.remove(&(nv, k.0, k.1));
            }
            9 => {
                v.push(Gfx(false, 48, if nv { 65 } else { 81 }, b"CLR".to_vec()));
                store.retain(|x, _| x.0 != nv);
            }
            10 => {
                v.push(Init);
                store.retain(|x, _| x.0);
                buffer.clear();
            }
            11 => {
                // layers are combined, so with many of them each has a dot of its own
                let k = if many { buffer.len() as u32 } else { next };
                let (w, h) = if many { (501, 1) } else { (next % 500 + 1, next / 500 + 1) };
                let mut d = vec![48, 1, 1, 49, w as u8, (w >> 8) as u8, h as u8, 0];
                let mut bits = vec![if many { 0 } else { 0xFF }; (w as usize + 7) / 8 * h as usize];
                if many {
                    bits[k as usize % 501 / 8] |= 0x80 >> (k % 501 % 8);
                }
                d.extend(bits);
                v.push(Gfx(false, 48, 112, d));
                buffer.push(next);
                next += 1;
            }
            _ => {
                v.push(Gfx(false, 48, s.one(&[2u8, 50]), vec![]));
                // one layer, more of them differ in size and are an error
                if many && !buffer.is_empty() {
                    want.push(LAYERS + buffer.len().min(501) as u32);
                } else if buffer.len() == 1 {
                    want.push(buffer[0]);
                }
                buffer.clear();
            }
        }
    }
    let job = send(o, &v);
    o.nontrivial = want.len() > 1;
    let r = e.sut.record(&job);
    let got: Vec<u32> = r.docs[0]
        .evs
        .iter()
        .filter_map(|(e, _)| if let Ev::Img { b, .. } = e { Some(b) } else { None })
        .map(|b| if b.w == 501 { LAYERS + b.px.iter().filter(|p| **p & 0xFF00_0000 != 0).count() as u32 } else { b.w - 1 + (b.h - 1) * 500 })
        .collect();
    if got != want {
        return Err(format!("definitions printed are {:?}, expected {:?}", got, want));
    }
    Ok(())
}

fn c12_picture(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let mut v = g_store_job(s, 10);
    v.retain(|i| !matches!(i, PageMode | StdMode | Ff));
    let job = send(o, &v);
    let w = want(&e.tables, &v);
    o.nontrivial = images(&w) > 0;
    picture(e, &w, &job)
}

/// Layers of the print buffer in every color, scale and format
fn c12_layers(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let mut v = vec![];
    for _ in 0..1 + s.n(3) {
        let n = 1 + s.n(4);
        let most = if s.chance(1, 60) { 200 } else { 20 };
        let (w, h) = (1 + s.below(most) as u16, 1 + s.below(most) as u16);
        let (sx, sy) = (s.one(&[1u8, 2]), s.one(&[1u8, 2]));
        for _ in 0..n {
            let mut b = buffer_sized(s, w, h);
            // the same size mostly
            if s.chance(9, 10) {
                if let Gfx(_, _, _, d) = &mut b {
                    d[1] = sx;
                    d[2] = sy;
                }
            }
            v.push(b);
        }
        v.push(gfx_flush());
        if s.chance(1, 3) {
            v.push(gfx_flush());
        }
        if s.chance(1, 4) {
            let k = g_key(s);
            v.push(g_gfx_define(s, true, k, most, most));
            v.push(gfx_print(true, k));
        }
    }
    let (w, job) = layout(e, o, &v, &IMAGES)?;
    let r = e.sut.record(&job);
    same_errors(&w.errors, &r)?;
    o.nontrivial = images(&w) > 0;
    o.label_if(!w.errors.is_empty(), "with errors");
    Ok(())
}

/// Graphics with more data than the length of the short form can say, and
/// others whose sizes need both bytes
fn c12_large(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let mut v = vec![];
    for _ in 0..1 + s.n(2) {
        match s.below(4) {
            0 => {
                v.push(large_buffer(s));
                v.push(gfx_flush());
            }
            _ => {
                let nv = s.chance(1, 2);
                v.push(large_def(s, (32, 33), nv));
                v.push(gfx_print(nv, (32, 33)));
            }
        }
        v.push(Text(b"z".to_vec()));
        v.push(Lf);
    }
    let (w, job) = layout(e, o, &v, &IMAGES)?;
    let r = e.sut.record(&job);
    same_errors(&w.errors, &r)?;
    o.nontrivial = images(&w) > 0;
    o.label_if(v.iter().any(|i| matches!(i, Gfx(_, _, _, d) if d.len() > 65533)), "more than 65535 bytes");
    Ok(())
}

pub fn props() -> Vec<Prop<Env>> {
    vec![
        Prop {
            id: "C11",
            rule: "a case is non-trivial when an image with at least one dot is printed; distinct by the bytes sent",
            assumptions: &["images are printed in black, a mode that does not exist reads as the normal one"],
            subs: vec![
                sub("page", c11_page, 20_000, 200_000),
                sub("dots", c11_dots, 90_000, 400_000),
                sub("sizes", c11_sizes, 20_000, 250_000),
                sub("large", c11_large, 1_500, 20_000),
                sub("picture", c11_picture, 10_000, 60_000),
            ],
        },
        Prop {
            id: "C12",
            rule: "a case is non-trivial when a stored graphic is printed (two for key histories); distinct by the bytes sent",
            assumptions: &["defining a graphic with data of the wrong length replaces the one before, printing it is an error"],
            subs: vec![
                sub("page", c12_page, 20_000, 200_000),
                sub("history", c12_history, 120_000, 500_000),
                sub("many", c12_many, 1_500, 20_000),
                sub("keys", c12_keys, 220_000, 1_000_000),
                sub("layers", c12_layers, 90_000, 400_000),
                sub("large", c12_large, 1_000, 20_000),
                sub("picture", c12_picture, 12_000, 50_000),
            ],
        },
    ]
}
