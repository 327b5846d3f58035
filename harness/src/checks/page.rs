//! C13: page mode
use super::*;
use crate::canvas::{diff, Pic};
use crate::gen::*;
use crate::items::Item::*;

pub struct PageGen {
    pub dir: u8,
    pub w: u16,
    pub h: u16,
}

impl PageGen {
    /// Width and height along the print direction
    pub fn seen(&self) -> (u16, u16) {
        if self.dir % 2 == 1 { (self.h, self.w) } else { (self.w, self.h) }
    }
}

fn g_content(s: &mut Src, p: &PageGen, v: &mut Vec<Item>) {
    let (w, _) = p.seen();
    match s.below(16) {
        0..=4 => v.push(Text(g_ascii(s, 20))),
        5 => v.push(Lf),
        6 => v.push(g_style(s)),
        7 => v.push(CharSize(g_size(s) & 0x22)),
        // positions along the axes of the area
        8 => v.push(AbsX(s.below(p.w.min(p.h) as u64 + 1) as u16)),
        9 => v.push(AbsY(s.below(p.w.min(p.h) as u64 + 1) as u16)),
        10 => {
            if s.chance(1, 3) {
                v.push(Lf);
            }
            v.push(match s.below(5) {
                0 | 1 => RelY(s.range(0, 60) as i16),
                2 => RelY(-(s.range(0, 60) as i16)),
                3 => RelY(s.one(&[-1i16, -100, -300, -32768, i16::MIN + 1])),
                _ => ReverseLines(s.below(3) as u8),
            });
        }
        11 => v.push(match s.below(3) {
            0 => FeedDots(s.below(40) as u8),
            1 => FeedLines(s.below(3) as u8),
            _ => g_spacing(s),
        }),
        12 => v.push(g_bit_image(s, (w as u64).min(60))),
        13 => v.push(g_raster(s, (w as u64 / 8).min(8), 20)),
        14 => {
            v.push(BarHeight(s.u(4, 30) as u8));
            v.push(BarWidth(2));
            v.push(g_barcode(s, 3));
        }
        _ => match s.below(3) {
            0 => {
                v.push(Code2d(49, 67, vec![s.u(1, 3) as u8]));
                let d = g_qr_data(s, 8);
                v.push(qr_store(&d));
                v.push(qr_print());
            }
            1 => {
                let k = (40, 40);
                v.push(g_gfx_define(s, false, k, 30, 20));
                v.push(gfx_print(false, k));
            }
            _ => v.push(g_just(s)),
        },
    }
}

/// A job with pages. Areas are taken as the paper is wide enough for them.
pub fn g_pages(s: &mut Src, upside: bool) -> Vec<Item> {
    pages_of(s, upside, g_content)
}

/// Pages with content of one kind
pub fn pages_of(s: &mut Src, upside: bool, content: fn(&mut Src, &PageGen, &mut Vec<Item>)) -> Vec<Item> {
    pages_sized(s, upside, content, &Sizes { pages: 2, areas: 4, content: 4, y: 150, h: 200 })
}

/// Limits of how many and how large
struct Sizes {
    pages: usize,
    areas: usize,
    content: usize,
    y: u64,
    h: u64,
}

fn pages_sized(s: &mut Src, upside: bool, content: fn(&mut Src, &PageGen, &mut Vec<Item>), z: &Sizes) -> Vec<Item> {
    let mut v = vec![];
    let k = 1 + s.n(z.pages);
    for _ in 0..k {
        if s.chance(1, 3) {
            v.extend(g_job(s, 1, &PLAIN));
        }
        if s.chance(1, 12) {
            // the next document, with what is in force
            v.extend([StdMode, Effects(s.u(48, 49) as u8, vec![s.one(&[48u8, 49, 50])]), Ff]);
        }
        v.push(PageMode);
        let mut p = PageGen { dir: 0, w: 0, h: 0 };
        let n = 1 + s.n(z.areas);
        for _ in 0..n {
            if s.chance(1, 3) {
                p.dir = s.below(4) as u8;
                v.push(Dir(if s.chance(1, 2) { p.dir } else { p.dir + 48 }));
            }
            if p.w == 0 || s.chance(3, 4) {
                let x = if s.chance(1, 3) { 0 } else { s.below(300) as u16 };
                let y = if s.chance(1, 3) { 0 } else { s.below(z.y) as u16 };
                p.w = 20 + s.below(280) as u16;
                p.h = 20 + s.below(z.h) as u16;
                if s.chance(1, 8) {
                    // up to the right side of the paper
                    let x = if s.chance(1, 2) { x } else { s.u(300, 589) as u16 };
                    let left = WIDTH as u16 - x;
                    let w = s.one(&[left, left - 1, left + 1, 608, 609, 610, 5000, 65535]);
                    v.push(Area(x, y, w, p.h));
                    p.w = w.min(left);
                } else if s.chance(1, 8) {
                    // in other units, what is left of a unit does not count
                    let (a, b) = (s.n(4), s.n(4));
                    let per = [203u8, 101, 67, 50];
                    let (za, zb) = (s.chance(1, 3), s.chance(1, 3));
                    let mut scaled = |n: u16, k: usize| n * (k as u16 + 1) + s.below(k as u64 + 1) as u16;
                    let per = |k: usize, zero: bool| if k == 0 && zero { 0 } else { per[k] };
                    v.push(Motion(per(a, za), per(b, zb)));
                    v.push(Area(scaled(x, a), scaled(y, b), scaled(p.w, a), scaled(p.h, b)));
                    if s.chance(1, 2) {
                        let (x, y) = s.one(&[(203u8, 203u8), (0, 0), (0, 203)]);
                            v.push(Motion(x, y));
                    }
                } else {
                    v.push(Area(x, y, p.w, p.h));
                }
            }
            if s.chance(1, 3) {
                p.dir = s.below(4) as u8;
                v.push(Dir(p.dir));
            }
            let m = 1 + s.n(z.content);
            for _ in 0..m {
                content(s, &p, &mut v);
            }
            if s.chance(1, 6) {
                v.push(PageFf);
            }
        }
        match s.below(8) {
            0 => {
                v.push(StdMode);
                // there is no page to print
                if s.chance(1, 3) {
                    v.push(PageFf);
                }
            }
            1 => {
                v.push(StdMode);
                v.push(Text(g_word(s, 8)));
                v.push(PageMode);
                v.push(PageFf);
                v.push(StdMode);
            }
            2 | 3 => v.push(Ff),
            _ => {
                v.push(PageFf);
                if s.chance(1, 4) {
                    v.push(PageFf);
                }
                if s.chance(3, 4) {
                    v.push(StdMode);
                }
            }
        }
    }
    if s.chance(1, 2) {
        v.push(Text(g_word(s, 8)));
    }
    if !upside {
        v.retain(|i| !matches!(i, Upside(_)));
    }
    v
}

/// One aspect of what is drawn on pages
pub fn on_pages(e: &mut Env, s: &mut Src, o: &mut Obs, k: &Aspects, content: fn(&mut Src, &PageGen, &mut Vec<Item>)) -> Result<(Want, Vec<u8>), String> {
    let v = pages_of(s, true, content);
    let (w, job) = layout(e, o, &v, k)?;
    o.nontrivial = !w.above && w.docs.iter().any(|d| d.ops.iter().any(|o| matches!(o, Op::PageDraw(..))));
    Ok((w, job))
}

fn printed(w: &Want) -> bool {
    w.docs.iter().any(|d| {
        d.ops.iter().any(|o| matches!(o, Op::PagePrint { .. })) && d.ops.iter().any(|o| matches!(o, Op::PageDraw(..)))
    })
}

fn c13_layout(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let v = g_pages(s, true);
    let (w, _) = layout(e, o, &v, &cmp::ALL)?;
    o.nontrivial = printed(&w) && !w.above;
    Ok(())
}

/// Many pages, many areas on a page, much in an area, areas of great height
fn c13_many(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let z = Sizes {
        pages: s.one(&[2usize, 2, 40]),
        areas: s.one(&[4usize, 4, 70]),
        content: s.one(&[4usize, 30, 150]),
        y: s.one(&[150u64, 150, 1500, 6000]),
        h: s.one(&[200u64, 200, 1500, 6000]),
    };
    let small = z.y * z.h <= 150 * 1500;
    let mut v = pages_sized(s, true, g_content, &z);
    if s.chance(4, 5) {
        // what ends up above its area says little about what comes after it
        v.retain(|i| !matches!(i, ReverseLines(_) | RelY(i16::MIN..=-1)));
    }
    let (w, job) = layout(e, o, &v, &cmp::ALL)?;
    o.nontrivial = printed(&w) && !w.above && v.len() > 40;
    o.label_if(w.docs.iter().any(|d| d.end_y > 4000), "more than 4000 dots");
    if small && !w.above && height(&w) < 3000 {
        if s.chance(1, 15) {
            o.label("as a picture");
            picture(e, &w, &job)?;
        } else if s.chance(1, 10) {
            let h = e.sut.html(&job);
            super::html::documents(e, &w, &h.docs, &super::html::EVERYTHING)?;
        }
    }
    Ok(())
}

fn c13_picture(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let v = g_pages(s, true);
    let job = send(o, &v);
    let w = want(&e.tables, &v);
    o.nontrivial = printed(&w) && !w.above;
    if w.above {
        return Ok(());
    }
    for d in &w.docs {
        for op in &d.ops {
            if let Op::PageDraw(f, _) = op {
                o.label(&format!("direction {}", f.dir));
            }
        }
    }
    picture(e, &w, &job)
}

fn c13_html(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let v = g_pages(s, true);
    let job = send(o, &v);
    let w = want(&e.tables, &v);
    o.nontrivial = printed(&w) && !w.above;
    if w.above {
        return Ok(());
    }
    let h = e.sut.html(&job);
    super::html::documents(e, &w, &h.docs, &super::html::EVERYTHING)
}

fn cut(p: &Pic, x: u32, y: u32, w: u32, h: u32) -> Pic {
    let mut q = Pic::new(w, h);
    for j in 0..h {
        for i in 0..w {
            q.px[(j * w + i) as usize] = p.get((x + i) as i64, (y + j) as i64).unwrap_or([1, 2, 3]);
        }
    }
    q
}

/// Turns a picture a quarter to the left
fn turn(p: &Pic) -> Pic {
    let mut q = Pic::new(p.h, p.w);
    for y in 0..q.h {
        for x in 0..q.w {
            q.px[(y * q.w + x) as usize] = p.at(p.w - 1 - y, x);
        }
    }
    q
}

/// The same content in a direction is the picture of it in direction 0,
/// turned, and moved to where the area is. No model is involved.
fn c13_turned(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let (w, h) = (24 + s.below(200) as u16, 24 + s.below(150) as u16);
    let (x, y) = (s.below(300) as u16, s.below(100) as u16);
    let dir = s.below(4) as u8;
    let p = PageGen { dir: 0, w, h };
    let mut c = vec![];
    let n = 1 + s.n(5);
    for _ in 0..n {
        g_content(s, &p, &mut c);
    }
    c.retain(|i| !matches!(i, AbsX(_) | AbsY(_)));
    // only what is inside of the area in both
    let job = |x: u16, y: u16, w: u16, h: u16, d: u8, early: bool| {
        let mut v = vec![PageMode];
        if early {
            v.push(Dir(d));
        }
        v.push(Area(x, y, w, h));
        if !early {
            v.push(Dir(d));
        }
        v.extend(c.iter().cloned());
        v.push(Ff);
        v
    };
    let early = s.chance(1, 2);
    let (aw, ah) = if dir % 2 == 1 { (h, w) } else { (w, h) };
    let a = job(0, 0, w, h, 0, false);
    let b = job(x, y, aw, ah, dir, early);
    let ja = encode(&a);
    let jb = send(o, &b);
    // content must stay in the area
    let m = Model::run(&e.tables, &a);
    if m.above || Model::run(&e.tables, &b).above {
        return Ok(());
    }
    for op in &m.docs[0].ops {
        if let Op::PageDraw(_, ev) = op {
            let (r, q) = match ev {
                Ev::Cell(c) => (c.x + c.st.w(), c.y + c.max_h + 8),
                Ev::Rect { x, y, w, h, .. } => (x + w, y + h),
                Ev::Img { x, y, b } => (x + b.w, y + b.h),
            };
            if r > w as u32 || q > h as u32 {
                o.label("larger than the area");
                return Ok(());
            }
            o.nontrivial = true;
        }
    }
    o.label(&format!("direction {}", dir));
    let pa = e.sut.picture(&ja).docs.remove(0);
    let pb = e.sut.picture(&jb).docs.remove(0);
    let top = 108;
    let mut want = cut(&pa, 20, top, w as u32, h as u32);
    for _ in 0..dir {
        want = turn(&want);
    }
    let got = cut(&pb, 20 + x as u32, top + y as u32, aw as u32, ah as u32);
    diff(&want, &got, 0).map_err(|m| format!("content in direction {}: {}", dir, m))?;
    if pb.h != top + y as u32 + ah as u32 {
        return Err(format!("the paper is {} tall, expected {}", pb.h, top + y as u32 + ah as u32));
    }
    for j in 0..pb.h {
        for i in 0..pb.w {
            let inside = (20 + x as u32..20 + x as u32 + aw as u32).contains(&i) && j >= top + y as u32;
            if !inside && pb.at(i, j) != PAPER {
                return Err(format!("dot {},{} outside of the area is not empty", i, j));
            }
        }
    }
    Ok(())
}

/// A page that is not printed leaves nothing, a page printed twice is there twice
fn c13_prints(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let mut before = g_job(s, 2, &PLAIN);
    before.push(Lf);
    before.retain(|i| !matches!(i, Ff | ReverseLines(_)));
    // nothing above reaches down into the page, however small its spacing
    before.push(FeedDots(255));
    let mut page = g_pages(s, true);
    // the content of one page
    page.retain(|i| !matches!(i, PageFf | Ff | StdMode | PageMode | Init | Spacing(_) | DefaultSpacing | Just(_)));
    let page: Vec<Item> = [vec![PageMode, Area(0, 0, 300, 120)], page.into_iter().filter(|i| !matches!(i, Cut(..))).collect()].concat();
    let n = s.below(4) as usize;
    let mut v = before.clone();
    v.extend(page.iter().cloned());
    for _ in 0..n {
        v.push(PageFf);
    }
    v.push(StdMode);
    let job = send(o, &v);
    o.nontrivial = n != 1;
    let got = e.sut.picture(&job);
    let (want, html_want) = (e.sut.picture(&encode(&before)).docs.remove(0), e.sut.html(&encode(&before)).docs.remove(0));
    let g = &got.docs[0];
    let rec = e.sut.record(&encode(&before)).docs.remove(0);
    if n == 0 {
        diff(&want, g, 0).map_err(|m| format!("a page that is not printed: {}", m))?;
        let h = e.sut.html(&job).docs.remove(0);
        if h != html_want {
            return Err("a page that is not printed changes the html".into());
        }
        return Ok(());
    }
    // heights of the page: one print of it alone
    let mut one = vec![];
    one.extend(page.iter().cloned());
    one.extend([PageFf, StdMode]);
    // styles in force come from what is before
    let mut pre: Vec<Item> = before.iter().filter(|i| !matches!(i, Text(_) | Lf | Cut(..) | FeedLines(_) | FeedDots(_) | ReverseLines(_) | AbsX(_) | Ht)).cloned().collect();
    pre.extend(one);
    let single = e.sut.picture(&encode(&pre)).docs.remove(0);
    let r1 = e.sut.record(&encode(&pre)).docs.remove(0);
    let ph = r1.end_y - r1.start_y;
    let y0 = rec.end_y;
    for k in 0..n as u32 {
        for j in 0..ph {
            for i in 0..g.w {
                let a = single.get(i as i64, (r1.start_y + j) as i64).unwrap_or(PAPER);
                let b = g.get(i as i64, (y0 + k * ph + j) as i64);
                if Some(a) != b {
                    return Err(format!("print {} of {}: dot {},{} of the page is {:?} instead of {:?}", k + 1, n, i, j, b, a));
                }
            }
        }
    }
    if g.h < y0 + n as u32 * ph {
        return Err(format!("the paper is {} tall after {} pages of {} at {}", g.h, n, ph, y0));
    }
    Ok(())
}

pub fn props() -> Vec<Prop<Env>> {
    vec![Prop {
        id: "C13",
        rule: "a case is non-trivial when something is drawn on a page that is printed (or a page is printed other than once); distinct by the bytes sent",
        assumptions: &[
            "positions stay inside the areas, what a printer does with positions outside of them is not defined",
            "a difference of up to 3 of 255 per colour is taken as rounding",
        ],
        subs: vec![
            sub("many", c13_many, 1_500, 60_000),
                sub("layout", c13_layout, 90_000, 400_000),
            sub("picture", c13_picture, 800, 50_000),
            sub("html", c13_html, 4_500, 15_000),
            sub("turned", c13_turned, 3_000, 70_000),
            sub("prints", c13_prints, 500, 30_000),
        ],
    }]
}
