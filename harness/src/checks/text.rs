//! C06, C07, C08 and C17: text, its layout and its look
use super::page::{on_pages, PageGen};
use super::*;
use crate::gen::*;
use crate::items::Item::*;

const STYLE: Aspects = Aspects { style: true, chars: true, x: true, lines: true, text: true, ..cmp::NONE };
const LAYOUT: Aspects = Aspects { chars: true, x: true, lines: true, text: true, ..cmp::NONE };
const VERTICAL: Aspects = Aspects { y: true, text: true, graphics: false, ..cmp::NONE };

fn styled(v: &[Item]) -> usize {
    v.iter()
        .filter(|i| {
            matches!(
                i,
                PrintMode(_) | Font(_) | Emphasis(_) | Strike(_) | Underline(_) | Upside(_) | Italic(_) | AltColor(_) | Invert(_)
                    | CharSize(_) | Effects(..) | Just(_) | Init
            )
        })
        .count()
}

fn g_styled_text(s: &mut Src, max: usize) -> Vec<Item> {
    let n = 2 + s.len(max);
    let mut v = vec![];
    for _ in 0..n {
        match s.below(16) {
            0..=5 => v.push(g_style(s)),
            6..=10 => v.push(Text(g_ascii(s, 14))),
            11 | 12 => v.push(Lf),
            13 => v.push(g_just(s)),
            14 => v.push(g_feed(s, false)),
            _ => {
                let item = match s.below(6) {
                    0 => Init,
                    1 => Ht,
                    2 => g_absx(s, 200),
                    3 => g_spacing(s),
                    4 => g_noop(s),
                    _ => {
                        // the text of bar codes has the styles as well
                        v.extend([Hri(1 + s.below(3) as u8), BarFont(s.below(3) as u8)]);
                        Barcode(73, b"{BA1".to_vec())
                    }
                };
                v.push(item);
            }
        }
    }
    if s.chance(1, 2) {
        v.push(Text(g_word(s, 5)));
    }
    v
}

fn c06_styles(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let v = g_styled_text(s, 24);
    let (w, _) = layout(e, o, &v, &STYLE)?;
    let cells = w.docs.iter().map(|d| d.ops.len()).sum::<usize>();
    o.nontrivial = styled(&v) > 1 && cells > 1;
    Ok(())
}

/// Each style command with each parameter, then text, then back
fn c06_parameters(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let n = s.index as u8;
    let v: Vec<Item> = match s.index >> 8 {
        0 => vec![PrintMode(n)],
        1 => vec![Font(n)],
        2 => vec![Emphasis(n)],
        3 => vec![Strike(n)],
        4 => vec![Underline(n)],
        5 => vec![Upside(n)],
        6 => vec![Italic(n)],
        7 => vec![AltColor(n)],
        8 => vec![Invert(n)],
        9 => vec![CharSize(n)],
        10 => vec![Effects(48, vec![n])],
        11 => vec![Effects(49, vec![n])],
        12 => vec![Just(n)],
        13 => vec![Effects(n, vec![50])],
        14 => vec![Smooth(n)],
        // switched on before
        15 => vec![Emphasis(1), Underline(2), Strike(1), Italic(1), Upside(1), PrintMode(n)],
        16 => vec![Emphasis(1), Emphasis(n), Italic(1), Italic(n), Strike(1), Strike(n), Upside(1), Upside(n), Underline(1), Underline(n)],
        17 => vec![Invert(1), Invert(n), Font(1), Font(n)],
        _ => vec![AltColor(1), AltColor(n), CharSize(0x21), CharSize(n)],
    };
    let mut items = vec![Text(b"ab".to_vec())];
    items.extend(v);
    items.extend([Text(b"cd".to_vec()), Lf, Text(b"ef".to_vec()), Init, Text(b"gh".to_vec())]);
    layout(e, o, &items, &STYLE)?;
    o.nontrivial = true;
    Ok(())
}

fn c06_html(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let v = g_styled_text(s, 14);
    let job = send(o, &v);
    let w = want(&e.tables, &v);
    o.nontrivial = styled(&v) > 1;
    let h = e.sut.html(&job);
    super::html::documents(e, &w, &h.docs, &super::html::Parts { position: false, graphics: false })
}

/// Styles seen on the picture
fn c06_picture(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let v = g_styled_text(s, 10);
    let job = send(o, &v);
    let w = want(&e.tables, &v);
    o.nontrivial = styled(&v) > 1;
    if height(&w) > 3000 {
        return Ok(());
    }
    picture(e, &w, &job)
}

// ---------------------------------------------------------------- C07

fn g_long_text(s: &mut Src) -> Vec<u8> {
    let n = 1 + s.n(6);
    let mut t = vec![];
    for _ in 0..n {
        match s.below(6) {
            0 => {
                let w = 30 + s.n(140);
                let c = s.one(b"abcxyz01");
                t.extend((0..w).map(|i| if i % 10 == 0 { b'0' + (i / 10 % 10) as u8 } else { c }));
            }
            1 => {
                let k = 1 + s.n(60);
                t.extend(std::iter::repeat(b' ').take(k));
            }
            2 => {
                // around the width of a line
                let w = 48 + s.n(8);
                t.extend(std::iter::repeat(b'm').take(w));
            }
            _ => t.extend(g_ascii(s, 60)),
        }
        if s.chance(1, 2) {
            t.push(b' ');
        }
    }
    t
}

pub fn g_layout_job(s: &mut Src) -> Vec<Item> {
    let n = 1 + s.len(14);
    let mut v = vec![];
    for _ in 0..n {
        match s.below(18) {
            0..=4 => v.push(Text(g_long_text(s))),
            5 | 6 => v.push(Text(g_ascii(s, 30))),
            7 => v.push(Lf),
            8 => v.push(Cr),
            9 => v.push(Ht),
            10 => v.push(g_tab(s)),
            11 => v.push(g_just(s)),
            12 => v.push(CharSize(if s.chance(1, 3) { s.byte() } else { g_size(s) })),
            13 => v.push(Font(g_font(s))),
            14 => v.push(g_absx(s, 640)),
            15 => v.push(g_look(s)),
            16 => v.push(if s.chance(1, 3) { g_motion(s) } else { Table(s.one(&[255u8, 0, 2])) }),
            _ => v.push(match s.below(3) {
                0 => {
                    let k = s.n(8);
                    Text("é日本 ß\u{a0}x\u{2003}y".chars().skip(k).collect::<String>().into_bytes())
                }
                1 => g_feed(s, false),
                _ => g_spacing(s),
            }),
        }
    }
    v
}

pub fn page_text(s: &mut Src, p: &PageGen, v: &mut Vec<Item>) {
    match s.below(12) {
        0 | 1 => v.push(Text(g_long_text(s))),
        2..=4 => v.push(Text(g_ascii(s, 30))),
        5 => v.push(Lf),
        6 => v.push(Ht),
        7 => v.push(g_tab(s)),
        8 => v.push(g_just(s)),
        9 => v.push(CharSize(g_size(s) & 0x22)),
        10 => v.push(AbsX(s.below(p.w.min(p.h) as u64 + 1) as u16)),
        _ => v.push(if s.chance(1, 2) { Font(g_font(s)) } else { Cr }),
    }
}

/// Lines on pages, whose width is that of their area
fn c07_page(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    on_pages(e, s, o, &LAYOUT, page_text).map(|_| ())
}

pub fn page_styles(s: &mut Src, _p: &PageGen, v: &mut Vec<Item>) {
    match s.below(3) {
        0 => v.push(g_style(s)),
        _ => v.push(Text(g_ascii(s, 10))),
    }
}

fn c06_page(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    on_pages(e, s, o, &STYLE, page_styles).map(|_| ())
}

pub fn page_vertical(s: &mut Src, p: &PageGen, v: &mut Vec<Item>) {
    match s.below(12) {
        0..=2 => v.push(Text(g_ascii(s, 30))),
        3 | 4 => v.push(Lf),
        5 => v.push(g_spacing(s)),
        6 => v.push(CharSize(g_size(s) & 0x22)),
        7 => v.push(FeedDots(s.below(60) as u8)),
        8 => v.push(FeedLines(s.below(4) as u8)),
        9 => v.push(AbsY(s.below(p.w.min(p.h) as u64 + 1) as u16)),
        10 => v.push(RelY(s.range(-30, 60) as i16)),
        _ => v.push(g_cut(s, 30)),
    }
}

/// Lines and feeds on pages, and the paper that pages take
fn c08_page(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    on_pages(e, s, o, &VERTICAL, page_vertical).map(|_| ())
}

fn c07_layout(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let mut v = g_layout_job(s);
    open_tabs(s, &mut v);
    let (w, job) = layout(e, o, &v, &LAYOUT)?;
    // independent of the model: inside the paper, nothing lost
    let r = e.sut.record(&job);
    let cells: Vec<&Cell> = r.docs[0].evs.iter().filter_map(|(e, _)| if let Ev::Cell(c) = e { Some(c) } else { None }).collect();
    for c in &cells {
        if c.x + c.st.w() > WIDTH {
            return Err(format!("{:?} at {} is {} wide and ends outside of the print area", c.ch, c.x, c.st.w()));
        }
    }
    let lines = cells.windows(2).filter(|c| c[0].y != c[1].y).count();
    o.nontrivial = cells.len() > 3;
    o.label_if(lines > v.iter().filter(|i| matches!(i, Lf)).count(), "wrapped");
    o.label_if(v.iter().any(|i| matches!(i, Just(_))), "justified");
    o.label_if(v.iter().any(|i| matches!(i, Ht)), "tabs");
    // all characters that were sent, in order, except line ends and tabs
    let sent: String = {
        let mut st = (0u8, 0u8);
        let mut t = String::new();
        for i in coalesce(&v) {
            match &i {
                Text(b) => t.push_str(&e.tables.decode(st.0, st.1, b)),
                Table(n) => st.0 = *n,
                Charset(n) => st.1 = *n,
                _ => {}
            }
        }
        t.chars().filter(|c| !"\n\r\t".contains(*c)).collect()
    };
    let got: String = cells.iter().map(|c| c.ch).collect();
    if sent != got {
        return Err(format!("characters sent {:?}, printed {:?}", sent, got));
    }
    let _ = w;
    Ok(())
}

/// One paragraph against a line breaker that knows nothing of the model
fn c07_paragraph(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let size = (s.n(8) << 4 | s.n(3)) as u8;
    let font = s.one(&[0u8, 1, 2]);
    let just = s.below(3) as u8;
    let n = 1 + if s.chance(1, 40) { s.n(1500) } else { s.n(30) };
    let longest = s.one(&[130usize, 130, 130, 130, 130, 130, 130, 4000]);
    let words: Vec<usize> = (0..n).map(|_| 1 + if s.chance(1, 8 + n as u64 / 20) { s.n(longest) } else { s.n(12) }).collect();
    let text: Vec<u8> = words
        .iter()
        .enumerate()
        .flat_map(|(i, w)| {
            let mut t = vec![b'a' + (i % 26) as u8; *w];
            if i + 1 < n {
                t.push(b' ');
            }
            t
        })
        .collect();
    let items = vec![CharSize(size), Font(font), Just(just), Text(text.clone()), Lf];
    let job = send(o, &items);
    let cw = (if font == 0 { 12 } else { 9 }) * ((size >> 4) as usize + 1);
    let per = WIDTH as usize / cw;
    // how many characters each line has
    let mut lines = vec![0usize];
    for (i, w) in words.iter().enumerate() {
        let len = w + (i + 1 < n) as usize;
        let room = per - *lines.last().unwrap();
        if len <= room {
            *lines.last_mut().unwrap() += len;
        } else if len > per {
            *lines.last_mut().unwrap() += room;
            let mut left = len - room;
            while left > 0 {
                let k = left.min(per);
                lines.push(k);
                left -= k;
            }
        } else {
            lines.push(len);
        }
    }
    lines.retain(|l| *l > 0);
    o.nontrivial = lines.len() > 1;
    o.label(&format!("{} lines", lines.len().min(6)));
    let r = e.sut.record(&job);
    let cells: Vec<&Cell> = r.docs[0].evs.iter().filter_map(|(e, _)| if let Ev::Cell(c) = e { Some(c) } else { None }).collect();
    let mut at = 0;
    for (k, l) in lines.iter().enumerate() {
        let free = WIDTH as usize - l * cw;
        let x0 = [0, free / 2, free][just as usize];
        for i in 0..*l {
            let Some(c) = cells.get(at) else { return Err(format!("line {} ends after {} characters", k, i)) };
            if c.ch != text[at] as char || c.x as usize != x0 + i * cw || c.y != cells[at - i].y {
                return Err(format!(
                    "line {} character {}: {:?} at {},{}, expected {:?} at {} in the line at {}",
                    k, i, c.ch, c.x, c.y, text[at] as char, x0 + i * cw, cells[at - i].y
                ));
            }
            at += 1;
        }
        if at < cells.len() && cells[at].y <= cells[at - 1].y {
            return Err(format!("line {} is not below the one before", k + 1));
        }
    }
    if at != cells.len() {
        return Err("more characters than sent".into());
    }
    Ok(())
}

/// A paragraph of thousands of pieces without an end of a line between them
fn c07_pieces(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let n = s.one(&[400usize, 2000, 5000, 8500, 12_000, 17_000]) + s.below(200) as usize;
    let mut v = vec![Just(s.below(3) as u8), Spacing(s.u(8, 40) as u8)];
    for i in 0..n {
        v.push(match s.below(40) {
            0 => Font(g_font(s)),
            1 => CharSize(s.one(&[0u8, 0, 0, 0x10, 0x01, 0x11])),
            2 => Text(g_word(s, 60)),
            3 | 4 => Text(b" ".to_vec()),
            _ if i % 2 == 1 => Emphasis(s.below(2) as u8),
            _ => Text(g_word(s, 6)),
        });
    }
    v.push(Lf);
    let (w, _) = layout(e, o, &v, &LAYOUT)?;
    o.nontrivial = w.docs[0].ops.len() > 100;
    o.label(&format!("{} thousand pieces", n / 1000));
    Ok(())
}

/// Tab stops in every number, reached from everywhere in the line
fn c07_tabs(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let mut v = vec![Font(s.one(&[0u8, 1, 2]))];
    if s.chance(1, 4) {
        v.push(g_just(s));
    }
    for _ in 0..1 + s.n(2) {
        let n = s.one(&[0usize, 1, 5, 30, 31, 32, 32]);
        v.push(tab_stops(s, n, s_top(n)));
        for _ in 0..1 + s.n(6) {
            let near = match v.iter().rev().find(|i| matches!(i, Tab(_))) {
                Some(Tab(t)) if t.len() > 1 && s.chance(2, 3) => t[t.len() - 2].saturating_sub(s.below(3) as u8),
                _ => s.below(60) as u8,
            };
            let k = near.clamp(1, 70) as usize;
            v.push(Text((0..k).map(|_| s.one(b"ab.")).collect()));
            for _ in 0..1 + s.n(2) {
                v.push(Ht);
            }
            v.push(Text(b"x".to_vec()));
            if s.chance(3, 4) {
                v.push(Lf);
            }
        }
        if s.chance(1, 4) {
            for _ in 0..s.below(36) {
                v.push(Ht);
                if s.chance(1, 4) {
                    v.push(Text(b"y".to_vec()));
                }
            }
            v.push(Text(b"z".to_vec()));
            v.push(Lf);
        }
    }
    layout(e, o, &v, &LAYOUT)?;
    o.nontrivial = true;
    o.label_if(v.iter().any(|i| matches!(i, Tab(t) if t.len() == 33)), "32 stops");
    Ok(())
}

/// The farthest stop of so many
fn s_top(n: usize) -> u8 {
    if n > 5 {
        36
    } else {
        60
    }
}

/// Positions on the paper: the picture of text that is laid out
fn c07_picture(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let n = 1 + s.n(4);
    let mut v = vec![];
    for _ in 0..n {
        if s.chance(1, 3) {
            v.push(g_just(s));
        }
        if s.chance(1, 3) {
            v.push(CharSize(g_size(s) & 0x33));
        }
        if s.chance(1, 4) {
            v.push(Ht);
        }
        v.push(Text(g_ascii(s, 50)));
        v.push(Lf);
    }
    let job = send(o, &v);
    let w = want(&e.tables, &v);
    o.nontrivial = true;
    picture(e, &w, &job)
}

// ---------------------------------------------------------------- C08

fn g_vertical(s: &mut Src, big: bool) -> Vec<Item> {
    let n = 1 + s.len(20);
    let mut v = vec![];
    for _ in 0..n {
        match s.below(20) {
            0..=2 => v.push(Text(g_ascii(s, 70))),
            3..=6 => v.push(g_feed(s, big)),
            7 | 8 => v.push(if big { Spacing(s.byte()) } else { g_spacing(s) }),
            9 => v.push(CharSize(if big { s.byte() } else { g_size(s) & 0x33 })),
            10 => v.push(Font(g_font(s))),
            11 => v.push(g_image(s)),
            12 => {
                v.push(g_bar_setting(s));
                v.push(g_barcode(s, 8));
            }
            13 => {
                v.push(Code2d(49, 67, vec![s.u(1, 6) as u8]));
                let d = g_qr_data(s, 30);
                v.push(qr_store(&d));
                v.push(qr_print());
            }
            14 => {
                v.push(g_buffer(s, 60, 50));
                v.push(gfx_flush());
            }
            15 => {
                let k = (32, 32 + s.below(2) as u8);
                v.push(g_gfx_define(s, true, k, 60, 50));
                v.push(gfx_print(true, k));
            }
            16 => v.push(Lf),
            17 => v.push(match s.below(5) {
                0 => Init,
                1 => Ff,
                2 => g_absx(s, 300),
                3 => g_just(s),
                _ => g_motion(s),
            }),
            18 => v.push(PrintMode(s.byte())),
            _ => v.push(if s.chance(1, 2) { g_cut(s, if big { 255 } else { 50 }) } else { g_noop(s) }),
        }
    }
    v
}

/// Where everything is in the vertical direction. Only the rows of graphics
/// are compared, what they look like belongs to others.
fn rows(d: &[(Ev, bool)]) -> Vec<(u32, u32)> {
    cmp::normal(d.to_vec())
        .iter()
        .filter_map(|(e, _)| match e {
            Ev::Cell(_) => None,
            Ev::Rect { y, h, .. } => Some((*y, *h)),
            Ev::Img { y, b, .. } => Some((*y, b.h)),
        })
        .fold(vec![], |mut v: Vec<(u32, u32)>, x| {
            if v.last() != Some(&x) {
                v.push(x)
            }
            v
        })
}

fn c08(e: &mut Env, s: &mut Src, o: &mut Obs, big: bool) -> Res {
    let v = g_vertical(s, big);
    let (w, job) = layout(e, o, &v, &VERTICAL)?;
    let r = e.sut.record(&job);
    for (d, g) in w.docs.iter().zip(&r.docs) {
        let (a, b) = (rows(&cmp::model_events(d)), rows(&g.evs));
        if a != b {
            return Err(format!("rows of graphics (top, height) are {:?}, expected {:?}", b, a));
        }
    }
    o.nontrivial = w.docs.iter().any(|d| d.end_y > d.start_y && !d.ops.is_empty());
    o.label_if(v.iter().any(|i| matches!(i, ReverseLines(n) if *n > 0)), "reverse");
    o.label_if(v.iter().any(|i| matches!(i, Cut(..))), "cut");
    o.label_if(v.iter().any(|i| matches!(i, Raster(..) | BitImage(..))), "image");
    Ok(())
}

fn c08_small(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    c08(e, s, o, false)
}
fn c08_big(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    c08(e, s, o, true)
}

/// Size of the picture and where its content is
fn c08_paper(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let v = g_vertical(s, false);
    let job = send(o, &v);
    let w = want(&e.tables, &v);
    if height(&w) > 4000 {
        return Ok(());
    }
    let got = e.sut.picture(&job);
    o.nontrivial = v.len() > 2;
    if got.docs.len() != w.docs.len() {
        return Err(format!("{} pictures instead of {}", got.docs.len(), w.docs.len()));
    }
    for (d, g) in w.docs.iter().zip(&got.docs) {
        let p = crate::canvas::paint(&mut e.fonts, d).paper;
        if (p.w, p.h) != (g.w, g.h) {
            return Err(format!("the paper is {} x {}, expected {} x {}", g.w, g.h, p.w, p.h));
        }
        // each row with or without ink
        for y in 0..p.h {
            let darkest = |q: &crate::canvas::Pic| (0..q.w).flat_map(|x| q.at(x, y)).min().unwrap_or(255);
            let (a, b) = (darkest(&p), darkest(g));
            // edges of letters can have any shade
            if a < 100 && b > 200 || a == 255 && b < 250 {
                return Err(format!("row {} has {}ink", y, if a < 100 { "no " } else { "" }));
            }
        }
    }
    // the html is as tall
    let h = e.sut.html(&job);
    for (d, h) in w.docs.iter().zip(&h.docs) {
        let p = crate::html::read(h)?;
        let end = (p.last + p.bottom).max(0) as u32;
        if end < d.end_y {
            return Err(format!("the html is {} tall, expected {}", end, d.end_y));
        }
    }
    Ok(())
}

/// Feeds add up, whatever their order
fn c08_feeds(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let n = 1 + s.n(20);
    let mut y = 60 + 48u64;
    let mut spacing = 24u64;
    let mut v = vec![];
    for _ in 0..n {
        match s.below(6) {
            0 => {
                let k = s.byte();
                v.push(FeedLines(k));
                y += k as u64 * spacing;
            }
            1 => {
                let k = s.byte();
                v.push(FeedDots(k));
                y += k as u64;
            }
            2 => {
                let k = s.bbyte();
                v.push(ReverseLines(k));
                y = y.saturating_sub(k as u64 * spacing);
            }
            3 => {
                let k = s.byte();
                v.push(Spacing(k));
                spacing = k as u64;
            }
            4 => {
                v.push(DefaultSpacing);
                spacing = 24;
            }
            _ => {
                let m = s.one(&[0u8, 1, 48, 49, 65, 66, 97, 98, 103, 104]);
                let k = if cut_has_length(m) { s.byte() } else { 0 };
                v.push(Cut(m, k));
                y += 2 * spacing + k as u64;
            }
        }
    }
    let job = send(o, &v);
    o.nontrivial = n > 2;
    let r = e.sut.record(&job);
    if r.docs[0].end_y as u64 != y {
        return Err(format!("the paper ends at {}, expected {}", r.docs[0].end_y, y));
    }
    Ok(())
}

// ---------------------------------------------------------------- C17

/// One piece of text in one combination of styles
fn c17_styles(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let mut v = vec![];
    let k = s.n(7);
    match s.below(4) {
        0 => v.push(g_just(s)),
        1 => v.push(AbsX(s.below(300) as u16)),
        _ => {}
    }
    for _ in 0..k {
        v.push(match g_style(s) {
            CharSize(n) if s.chance(1, 2) => CharSize(n & 0x33),
            i => i,
        });
    }
    if s.chance(1, 3) {
        let pages = e.tables.pages();
        v.push(Table(*s.pick(&pages)));
    }
    let m = 1 + s.n(3);
    for _ in 0..m {
        if s.chance(1, 2) {
            v.push(g_style(s));
        }
        if s.chance(1, 6) {
            v.push(Ht);
        }
        v.push(Text(if s.chance(1, 2) { g_text_bytes(s, 6) } else { g_ascii(s, 10) }));
    }
    if s.chance(1, 2) {
        v.push(Lf);
        if s.chance(1, 3) {
            v.push(g_just(s));
        }
        v.push(Text(g_word(s, 4)));
    }
    let job = send(o, &v);
    let w = want(&e.tables, &v);
    o.nontrivial = styled(&v) > 0;
    picture(e, &w, &job)
}

/// Every byte of every table in every font
fn c17_glyphs(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let pages = e.tables.pages();
    let n = pages.len() as u64;
    let page = pages[(s.index % n) as usize];
    let k = s.index / n;
    let (font, look) = (k % 3, k / 3);
    let bytes: Vec<u8> = (33..=255u8).filter(|b| is_text_byte(*b)).collect();
    let mut v = vec![Table(page), Font(font as u8)];
    if look & 1 != 0 {
        v.push(Emphasis(1));
    }
    if look & 2 != 0 {
        v.push(Italic(1));
    }
    v.push(Text(bytes));
    let job = send(o, &v);
    let w = want(&e.tables, &v);
    o.nontrivial = true;
    picture(e, &w, &job)
}

/// Text over what was printed in the same place before
fn c17_over(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let mut v = vec![];
    let n = 2 + s.n(10);
    for _ in 0..n {
        for _ in 0..s.n(3) {
            v.push(g_style(s));
        }
        match s.below(8) {
            0 => v.push(g_bit_image(s, 30)),
            1 => v.push(g_raster(s, 6, 30)),
            2 => v.extend(g_page(s)),
            _ => v.push(Text(if s.chance(1, 4) { g_text_bytes(s, 6) } else { g_ascii(s, 8) })),
        }
        match s.below(5) {
            0 => v.push(Lf),
            1 => v.push(FeedDots(s.below(20) as u8)),
            _ => {}
        }
        match s.below(5) {
            0 => v.push(AbsX(s.below(60) as u16)),
            1 => v.push(ReverseLines(1 + s.below(2) as u8)),
            2 => v.push(RelY(-(s.below(40) as i16))),
            _ => {}
        }
    }
    let job = send(o, &v);
    let w = want(&e.tables, &v);
    if w.above || height(&w) > 3000 {
        return Ok(());
    }
    o.nontrivial = true;
    picture(e, &w, &job)
}

/// Upside down text is the upright text turned over in its cells, inverse
/// text has paper where ink was. Seen on the pictures alone.
fn c17_turned(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let size = g_size(s) & 0x77;
    let font = s.one(&[0u8, 1, 2]);
    let bold = s.below(2) as u8;
    let t = g_word(s, 6);
    let line = |extra: &[Item]| {
        let mut v = vec![CharSize(size), Font(font), Emphasis(bold)];
        v.extend_from_slice(extra);
        v.push(Text(t.clone()));
        v.push(Lf);
        v
    };
    let a = line(&[]);
    let b = line(&[Upside(1)]);
    let c = line(&[Invert(1)]);
    o.job(&encode(&a));
    o.desc(|| show(&a));
    o.nontrivial = true;
    let p = e.sut.picture(&encode(&a)).docs.remove(0);
    let q = e.sut.picture(&encode(&b)).docs.remove(0);
    let r = e.sut.picture(&encode(&c)).docs.remove(0);
    let h = (if font == 0 { 24 } else { 17 }) * ((size & 7) as u32 + 1);
    let w = (if font == 0 { 12 } else { 9 }) * ((size >> 4) as u32 + 1) * t.len() as u32;
    if p.w != q.w || p.h != q.h || p.h != r.h {
        return Err("the pictures differ in size".into());
    }
    let y0 = 108;
    for y in 0..p.h {
        for x in 0..p.w {
            let inside = (20..20 + w).contains(&x) && (y0..y0 + h).contains(&y);
            let (a, c) = (p.at(x, y), r.at(x, y));
            if inside {
                let b = q.at(x, y0 + h - 1 - (y - y0));
                if a != b {
                    return Err(format!("upside down: pixel {},{} is {:?} upright and {:?} turned over", x, y, a, b));
                }
                if (0..3).any(|k| (a[k] as i32 + c[k] as i32 - 255).abs() > 2) {
                    return Err(format!("inverse: pixel {},{} is {:?} and {:?} inverted", x, y, a, c));
                }
            } else if a != PAPER || q.at(x, y) != PAPER || c != PAPER {
                return Err(format!("pixel {},{} outside of the text is not paper", x, y));
            }
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop<Env>> {
    vec![
        Prop {
            id: "C06",
            rule: "a case is non-trivial when it has at least two style commands (or checks one parameter value); distinct by the bytes sent",
            assumptions: &["styles are compared where the renderer hands text to its output, in the html and on the picture"],
            subs: vec![
                sub("page", c06_page, 20_000, 200_000),
                sub("styles", c06_styles, 180_000, 800_000),
                all("parameters", c06_parameters, 19 * 256),
                sub("html", c06_html, 40_000, 250_000),
                sub("picture", c06_picture, 6_000, 40_000),
            ],
        },
        Prop {
            id: "C07",
            rule: "a case is non-trivial when more than three characters are printed, for paragraphs when it takes more than one line; distinct by the bytes sent",
            assumptions: &["text in standard mode; a carriage return takes no space"],
            subs: vec![
                sub("page", c07_page, 20_000, 200_000),
                sub("tabs", c07_tabs, 30_000, 300_000),
                sub("pieces", c07_pieces, 100, 2_000),
                sub("layout", c07_layout, 60_000, 800_000),
                sub("paragraph", c07_paragraph, 90_000, 400_000),
                sub("picture", c07_picture, 3_000, 30_000),
            ],
        },
        Prop {
            id: "C08",
            rule: "a case is non-trivial when something is printed or at least three commands are sent; distinct by the bytes sent",
            assumptions: &["pictures are drawn for documents up to 4000 dots tall"],
            subs: vec![
                sub("page", c08_page, 20_000, 200_000),
                sub("positions", c08_small, 37_000, 700_000),
                sub("extremes", c08_big, 36_000, 400_000),
                sub("paper", c08_paper, 3_000, 40_000),
                sub("feeds", c08_feeds, 150_000, 700_000),
            ],
        },
        Prop {
            id: "C17",
            rule: "a case is non-trivial when a style other than the default is selected (glyph and turning cases always); distinct by the bytes sent",
            assumptions: &[
                "glyph shapes are rasterised by the same font library from the same font files",
                "a difference of up to 3 of 255 per colour is taken as rounding",
            ],
            subs: vec![
                sub("styles", c17_styles, 8_000, 100_000),
                all("glyphs", c17_glyphs, 9 * 12),
                sub("over", c17_over, 4_000, 100_000),
                sub("turned", c17_turned, 3_700, 30_000),
            ],
        },
    ]
}
