//! C15: the html shows what the receipt shows
use super::*;
use crate::canvas::paint;
use crate::gen::*;
use crate::css;
use crate::html::{self, HEv};
use crate::items::Item::*;

#[derive(Clone, Copy)]
pub struct Parts {
    pub position: bool,
    pub graphics: bool,
}

pub const EVERYTHING: Parts = Parts { position: true, graphics: true };

/// The classes a style is shown with, sorted
pub fn classes(st: &Style) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut add = |c: bool, n: &str| {
        if c {
            v.push(n.to_string())
        }
    };
    add(st.bold, "b");
    add(st.italic, "i");
    add(st.strike > 0, "s");
    add(st.strike > 1, "sd");
    add(st.wm > 1, &format!("w{}", st.wm));
    add(st.hm > 1, &format!("h{}", st.hm));
    add(st.wm > 1 || st.hm > 1, "str");
    add(st.ul > 0, "u");
    add(st.ul > 1, "ud");
    add(st.upside, "upd");
    // the fonts without a size of their own have the cells of font B
    add(!matches!(st.font, FontM::A | FontM::C), "fb");
    add(st.font == FontM::C, "fc");
    add(st.fg == PAPER, "fg_0");
    add(st.fg == RED, "fg_2");
    add(st.fg == BLUE, "fg_3");
    add(st.bg == BLACK, "bg_1");
    add(st.bg == RED, "bg_2");
    add(st.bg == BLUE, "bg_3");
    v.sort();
    v
}

/// What one document should show, in order. Pages become images.
fn expected(e: &mut Env, d: &Doc) -> Vec<Ev> {
    let has_pages = d.ops.iter().any(|o| matches!(o, Op::PagePrint { .. }));
    let painted = if has_pages { paint(&mut e.fonts, d).pages } else { vec![] };
    let mut pages = painted.into_iter();
    let mut v = vec![];
    for op in &d.ops {
        match op {
            Op::Draw(ev) => v.push(ev.clone()),
            Op::PagePrint { x, y } => {
                let (_, _, p) = pages.next().unwrap();
                let b = Bitmap { w: p.w, h: p.h, px: p.px.iter().map(|c| px(*c)).collect() };
                v.push(Ev::Img { x: *x, y: *y, b: std::rc::Rc::new(b) });
            }
            _ => {}
        }
    }
    v
}

fn near(a: Px, b: Px) -> bool {
    (a == 0) == (b == 0) && [16, 8, 0].iter().all(|k| ((a >> k & 255) as i32 - (b >> k & 255) as i32).abs() <= TOL as i32)
}

fn document(e: &mut Env, d: &Doc, h: &str, k: &Parts) -> Res {
    let page = html::read(h)?;
    // both sides as characters, joined rectangles and images
    let keep = |v: Vec<Ev>| -> Vec<Ev> {
        let v = v.into_iter().filter(|e| k.graphics || matches!(e, Ev::Cell(_))).map(|e| (e, false)).collect();
        cmp::normal(v).into_iter().map(|x| x.0).collect()
    };
    let want = keep(expected(e, d));
    let mut at = 0;
    let mut rest: Vec<HEv> = vec![];
    // rectangles that follow each other are joined on this side too
    {
        let mut rects: Vec<(Ev, bool)> = vec![];
        let put = |rects: &mut Vec<(Ev, bool)>, rest: &mut Vec<HEv>| {
            for (e, _) in cmp::normal(std::mem::take(rects)) {
                if let Ev::Rect { x, y, w, h, c } = e {
                    rest.push(HEv::Rect { x: x as i64, y: y as i64, w: w as i64, h: h as i64, c });
                }
            }
        };
        for ev in page.evs {
            match ev {
                HEv::Rect { x, y, w, h, c } => {
                    if k.graphics {
                        if x < 0 || y < 0 || w < 0 || h < 0 {
                            return Err(format!("rectangle at {},{} {}x{}", x, y, w, h));
                        }
                        rects.push((Ev::Rect { x: x as u32, y: y as u32, w: w as u32, h: h as u32, c }, false));
                    }
                }
                HEv::Img(_) if !k.graphics => {}
                // text without characters shows nothing
                HEv::Span(s) if s.text.is_empty() => {}
                ev => {
                    put(&mut rects, &mut rest);
                    rest.push(ev);
                }
            }
        }
        put(&mut rects, &mut rest);
    }
    for (i, ev) in rest.iter().enumerate() {
        match ev {
            HEv::Span(s) => {
                let n = s.text.len();
                let mut cells = vec![];
                for j in 0..n {
                    match want.get(at + j) {
                        Some(Ev::Cell(c)) => cells.push(c),
                        _ => return Err(format!("span {:?} shows more text than was printed", s.text.iter().collect::<String>())),
                    }
                }
                let shown: String = s.text.iter().collect();
                let first = cells[0];
                for (j, c) in cells.iter().enumerate() {
                    if c.ch != s.text[j] {
                        return Err(format!("span {:?}: character {} should be {:?}", shown, j, c.ch));
                    }
                    if classes(&c.st) != classes(&first.st) || c.y != first.y {
                        return Err(format!("span {:?}: character {} has another style or line", shown, j));
                    }
                    if k.position && c.x != first.x + j as u32 * first.st.w() {
                        return Err(format!("span {:?}: character {} belongs at {}", shown, j, c.x));
                    }
                }
                let mut got = s.class.clone();
                got.sort();
                if got != classes(&first.st) {
                    return Err(format!("span {:?} has the classes {:?}, expected {:?}", shown, got, classes(&first.st)));
                }
                if k.position {
                    if s.x != first.x as i64 || s.row != first.y as i64 {
                        return Err(format!("span {:?} is at {},{}, expected {},{}", shown, s.x, s.row, first.x, first.y));
                    }
                    let top = ((first.max_h - first.st.h()) as f32 * 0.78).floor() as i64;
                    if (s.top - top).abs() > 1 {
                        return Err(format!("span {:?} is moved down by {}, expected {}", shown, s.top, top));
                    }
                }
                at += n;
            }
            HEv::Rect { x, y, w, h, c } => {
                let ok = matches!(want.get(at), Some(Ev::Rect { x: a, y: b, w: p, h: q, c: r })
                    if (*a as i64, *b as i64, *p as i64, *q as i64) == (*x, *y, *w, *h) && r == c);
                if !ok {
                    return Err(format!("output {}: rectangle {},{} {}x{} {:?}, expected {:?}", i, x, y, w, h, c, want.get(at)));
                }
                at += 1;
            }
            HEv::Img(g) => {
                let Some(Ev::Img { x, y, b }) = want.get(at) else {
                    return Err(format!("output {}: image at {},{}, expected {:?}", i, g.x, g.y, want.get(at)));
                };
                if (g.x, g.y) != (*x as i64, *y as i64) || (g.w, g.h) != (b.w, b.h) {
                    return Err(format!("image {}x{} at {},{}, expected {}x{} at {},{}", g.w, g.h, g.x, g.y, b.w, b.h, x, y));
                }
                for (j, (p, q)) in b.px.iter().zip(g.rgba.chunks_exact(4)).enumerate() {
                    let got = if q[3] == 0 {
                        0
                    } else if q[3] == 255 {
                        px([q[0], q[1], q[2]])
                    } else {
                        return Err(format!("image dot {} has alpha {}", j, q[3]));
                    };
                    if !near(*p, got) {
                        return Err(format!("image {}x{}: dot {},{} is {:x}, expected {:x}", b.w, b.h, j as u32 % b.w, j as u32 / b.w, got, p));
                    }
                }
                at += 1;
            }
        }
    }
    if at != want.len() {
        return Err(format!("the html ends before {:?}", want[at]));
    }
    if k.position {
        if page.last + page.bottom < d.end_y as i64 {
            return Err(format!("the html is {} tall, expected {}", page.last + page.bottom, d.end_y));
        }
        if page.bottom > 0 && page.last + page.bottom != d.end_y as i64 {
            return Err(format!("the html ends at {}, expected {}", page.last + page.bottom, d.end_y));
        }
        if page.width != PAPER_WIDTH as i64 || page.left != 20 || page.right != 20 {
            return Err(format!("the paper is {} wide with margins {} and {}", page.width, page.left, page.right));
        }
    }
    Ok(())
}

pub fn documents(e: &mut Env, w: &Want, docs: &[String], k: &Parts) -> Res {
    if docs.len() != w.docs.len() {
        return Err(format!("{} html documents instead of {}", docs.len(), w.docs.len()));
    }
    for (i, (d, h)) in w.docs.iter().zip(docs).enumerate() {
        document(e, d, h, k).map_err(|m| format!("html {}: {}", i, m))?;
    }
    Ok(())
}

/// The spans of html with those joined that show the same without a gap
pub fn joined(h: &str) -> Result<Vec<HEv>, String> {
    let p = html::read(h)?;
    let mut v: Vec<HEv> = vec![];
    for e in p.evs {
        if let (HEv::Span(s), Some(HEv::Span(t))) = (&e, v.last_mut()) {
            let wide = s.class.iter().find_map(|c| c.strip_prefix('w').and_then(|n| n.parse::<i64>().ok())).unwrap_or(1);
            let small = s.class.iter().any(|c| c == "fb" || c == "fc");
            let cw = wide * if small { 9 } else { 12 };
            if s.class == t.class && s.row == t.row && s.top == t.top && s.x == t.x + t.text.len() as i64 * cw {
                t.text.extend(&s.text);
                continue;
            }
        }
        v.push(e);
    }
    v.push(HEv::Rect { x: p.width, y: p.left, w: p.right, h: p.last + p.bottom, c: [0, 0, 0] });
    Ok(v)
}

fn check(e: &mut Env, o: &mut Obs, items: &[Item]) -> Res {
    let job = send(o, items);
    let w = want(&e.tables, items);
    if w.above {
        return Ok(());
    }
    let h = e.sut.html(&job);
    documents(e, &w, &h.docs, &EVERYTHING)?;
    same_errors(&w.errors, &h)
}

fn c15_documents(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let n = 1 + s.len(14);
    let v = g_job(s, n, &Mix { page: 0, ff: 1, ..MIXED });
    o.nontrivial = v.len() > 2;
    check(e, o, &v)
}

fn c15_pages(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    if s.chance(1, 2) {
        let v = super::page::g_pages(s, true);
        o.nontrivial = true;
        return check(e, o, &v);
    }
    let mut v = g_job(s, 2, &PLAIN);
    v.extend(g_page(s));
    v.extend(g_job(s, 2, &Mix { page: 2, ..MIXED }));
    o.nontrivial = true;
    check(e, o, &v)
}

const NASTY: &[&str] = &[
    "<", ">", "&", "\"", "'", "</span>", "<b>", "&amp;", "&lt;", "{{content}}", "{{color-0}}", "{{color-1}}", "{{color-2}}",
    "{{color-3}}", "{{receipt-style}}", "<!--", "-->", "<script>alert(1)</script>", "</article>", "<article>", "</p>", "&#60;",
    "' onclick='x", "{{", "}}", "$&", "$1", "\\", "%3C", "<p style='height: 3px; margin-top: 1px'>",
];

/// Text that looks like markup is shown as it is
fn c15_escape(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let n = 1 + s.n(8);
    let mut v = vec![];
    if s.chance(1, 3) {
        v.push(Table(s.one(&[255u8, 0, 2, 16])));
    }
    for _ in 0..n {
        match s.below(8) {
            0..=3 => v.push(Text(s.pick(NASTY).as_bytes().to_vec())),
            4 => v.push(Text(g_text_bytes(s, 20))),
            5 => v.push(g_style(s)),
            6 => v.push(Lf),
            _ => {
                // as data of a bar code with its text below
                v.push(Hri(3));
                v.push(Barcode(73, [&b"{B"[..], s.one(&[&b"<b>"[..], b"&lt;", b"'\">", b"</p>"])].concat()));
            }
        }
    }
    let job = send(o, &v);
    let w = want(&e.tables, &v);
    let got = e.sut.html(&job);
    documents(e, &w, &got.docs, &EVERYTHING)?;
    // everything around the receipt is the same as around an empty one
    let empty = e.sut.html(b"").docs.remove(0);
    let (p, q) = (html::read(&got.docs[0])?, html::read(&empty)?);
    if p.head != q.head || p.tail != q.tail {
        return Err("text changed the document around the receipt".into());
    }
    o.nontrivial = true;
    Ok(())
}

fn c15_graphics(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let n = 1 + s.len(8);
    let v = g_job(s, n, &Mix { image: 8, barcode: 6, qr: 4, gfx: 8, text: 3, style: 4, page: 0, bad: 0, ..MIXED });
    let job = send(o, &v);
    let w = want(&e.tables, &v);
    o.nontrivial = w.docs.iter().any(|d| d.ops.iter().any(|o| matches!(o, Op::Draw(Ev::Img { .. } | Ev::Rect { .. }))));
    let h = e.sut.html(&job);
    documents(e, &w, &h.docs, &EVERYTHING)
}

/// Lines of many pieces, large codes and images, very many lines
fn c15_large(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let mut v = vec![];
    match s.below(6) {
        5 => {
            v.push(Font(s.below(3) as u8));
            for i in 0..10 + s.below(150) as u8 {
                v.push(match s.below(3) {
                    0 => Emphasis(i),
                    1 => Italic(i),
                    _ => Underline(i % 3),
                });
                v.push(Text(if s.chance(1, 20) { g_word(s, 3) } else { vec![b'!' + i % 90] }));
            }
        }
        0 => {
            v.push(Font(1));
            for _ in 0..1 + s.n(3) {
                for _ in 0..s.below(200) {
                    match s.below(4) {
                        0 => v.push(g_style(s)),
                        1 => v.push(Text(b" ".to_vec())),
                        _ => v.push(Text(g_word(s, 2))),
                    }
                }
                v.push(Lf);
            }
        }
        1 => {
            let n = 200 + s.below(2500) as usize;
            v.push(Code2d(49, 65, vec![50, 0]));
            v.push(Code2d(49, 67, vec![1 + s.below(3) as u8]));
            v.push(Code2d(49, 69, vec![48 + s.below(4) as u8]));
            v.push(Code2d(49, 80, [vec![48], if s.chance(1, 2) { digits(s, n) } else { s.bytes(n.min(1200)) }].concat()));
            v.push(Code2d(49, 81, vec![48]));
        }
        2 if s.chance(1, 4) => {
            let (w, h) = (s.u(100, 2400) as u16, s.u(1, 12) as u16);
            let d = s.bytes(w as usize * h as usize);
            v.push(Raster(s.below(4) as u8, w, h, d));
        }
        2 => v.push(g_raster(s, 80, 900)),
        3 => {
            for _ in 0..50 + s.below(300) {
                if s.chance(1, 3) {
                    v.push(g_style(s));
                }
                v.push(Text(g_word(s, 20)));
                v.push(Lf);
            }
        }
        _ => {
            for _ in 0..20 + s.below(200) {
                v.push(match s.below(4) {
                    0 => g_raster(s, 4, 20),
                    1 => g_bit_image(s, 60),
                    2 => g_feed(s, false),
                    _ => Barcode(69, b"AB".to_vec()),
                });
            }
        }
    }
    v.push(Text(g_word(s, 5)));
    o.nontrivial = true;
    check(e, o, &v)
}

/// The stylesheet makes a browser show every style as it was selected
fn c15_rules(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let v = vec![
        Invert(s.below(2) as u8),
        Effects(48, vec![48 + s.below(4) as u8]),
        Effects(49, vec![48 + s.below(4) as u8]),
        CharSize((s.below(8) << 4 | s.below(8)) as u8),
        Font(s.one(&[0u8, 1, 2, 3, 4, 48, 49, 50, 51, 52, 97, 98])),
        Emphasis(s.below(2) as u8),
        Italic(s.below(2) as u8),
        Underline(s.below(3) as u8),
        Strike(s.below(2) as u8),
        Upside(s.below(2) as u8),
        Text(b"text".to_vec()),
    ];
    let job = send(o, &v);
    let w = want(&e.tables, &v);
    let h = e.sut.html(&job).docs.remove(0);
    let st = match w.docs[0].ops.first() {
        Some(Op::Draw(Ev::Cell(c))) => c.st.clone(),
        _ => return Ok(()),
    };
    let span = html::read(&h)?.evs.into_iter().find_map(|e| match e {
        HEv::Span(s) => Some(s),
        _ => None,
    });
    let Some(span) = span else { return Err("no text is shown".into()) };
    // a stylesheet that needs more than the cascade here is not judged
    let Some(sheet) = css::Sheet::read(&h) else { return Ok(()) };
    let Some(look) = sheet.look(&span.class) else { return Ok(()) };
    o.nontrivial = true;
    let hexed = |c: Rgb| format!("#{:02X}{:02X}{:02X}", c[0], c[1], c[2]);
    let same = |got: &str, c: Rgb| got == hexed(c) || got == hexed(c) + "FF";
    if !same(&look.color, st.fg) {
        return Err(format!("text is shown in {} instead of {}", look.color, hexed(st.fg)));
    }
    if !same(&look.background, st.bg) && !(st.bg == PAPER && look.background == "TRANSPARENT") {
        return Err(format!("the background is {} instead of {}", look.background, hexed(st.bg)));
    }
    if (look.bold, look.italic) != (st.bold, st.italic) {
        return Err(format!("text that is bold {} and italic {} is shown with {} and {}", st.bold, st.italic, look.bold, look.italic));
    }
    if (look.underline.is_some(), look.strike) != (st.ul > 0, st.strike > 0) {
        return Err(format!("underline {:?} and line through {}, expected {} and {}", look.underline, look.strike, st.ul, st.strike));
    }
    let (sx, sy) = (st.wm as f64, st.hm as f64);
    let y = if st.upside { (-sy, sy) } else { (sy, 0.0) };
    let near = |a: (f64, f64), b: (f64, f64)| (a.0 - b.0).abs() < 0.01 && (a.1 - b.1).abs() < 0.01;
    if !near(look.x, (sx, 0.0)) || !near(look.y, y) {
        return Err(format!("text of size {}x{}, upside down {}, is shown with {:?} {:?}", st.wm, st.hm, st.upside, look.x, look.y));
    }
    if !look.pre || !look.absolute {
        return Err("spaces or positions of text are lost".into());
    }
    let full = sheet.look(&[]).map_or(1.0, |l| l.size);
    if (look.size < full) != (st.font != FontM::A) {
        return Err(format!("font {:?} is shown at size {} of {}", st.font, look.size, full));
    }
    // two lines under the text are not shown as one
    if st.ul > 0 {
        let other = |add: &[&str], remove: &[&str]| {
            let mut c: Vec<String> = span.class.iter().filter(|c| !remove.contains(&c.as_str())).cloned().collect();
            c.extend(add.iter().map(|s| s.to_string()));
            sheet.look(&c)
        };
        let (one, two) = (other(&[], &["ud"]), other(&["ud"], &["ud"]));
        if let (Some(one), Some(two)) = (one, two) {
            if one.underline == two.underline {
                return Err("a double underline is shown as a single one".into());
            }
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop<Env>> {
    vec![Prop {
        id: "C15",
        rule: "a case is non-trivial when it has more than two commands, or graphics, a page or text that looks like markup; distinct by the bytes sent",
        assumptions: &[
            "the html is read by a reader for the subset of html and css it uses, browsers are not run",
            "styles are compared by the classes of the stylesheet, and what the stylesheet makes of the classes by a cascade for the css it uses",
        ],
        subs: vec![
            sub("documents", c15_documents, 45_000, 200_000),
            sub("pages", c15_pages, 6_000, 25_000),
            sub("escape", c15_escape, 45_000, 200_000),
            sub("graphics", c15_graphics, 30_000, 120_000),
            sub("large", c15_large, 4_000, 40_000),
            sub("rules", c15_rules, 7_500, 20_000),
        ],
    }]
}
