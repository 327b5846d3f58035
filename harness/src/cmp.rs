//! Comparison of what the model draws with what was drawn
use crate::model::*;
use crate::sut::RecDoc;

/// Which aspects of text and graphics a property is about
#[derive(Clone, Copy)]
pub struct Aspects {
    pub x: bool,
    pub y: bool,
    pub style: bool,
    pub chars: bool,
    pub graphics: bool,
    pub text: bool,
    /// which characters share a line
    pub lines: bool,
}

pub const ALL: Aspects = Aspects { x: true, y: true, style: true, chars: true, graphics: true, text: true, lines: true };
pub const NONE: Aspects = Aspects { x: false, y: false, style: false, chars: false, graphics: false, text: false, lines: false };

fn line_of(e: &Ev) -> Option<u32> {
    match e {
        Ev::Cell(c) => Some(c.y),
        _ => None,
    }
}

pub fn model_events(d: &Doc) -> Vec<(Ev, bool)> {
    d.ops
        .iter()
        .filter_map(|o| match o {
            Op::Draw(e) => Some((e.clone(), false)),
            Op::PageDraw(_, e) => Some((e.clone(), true)),
            _ => None,
        })
        .collect()
}

pub fn page_prints(d: &Doc) -> Vec<(u32, u32)> {
    d.ops
        .iter()
        .filter_map(|o| match o {
            Op::PagePrint { x, y } => Some((*x, *y)),
            _ => None,
        })
        .collect()
}

/// Rectangles that follow each other are joined to the longest ones, empty
/// images and rectangles are dropped
pub fn normal(v: Vec<(Ev, bool)>) -> Vec<(Ev, bool)> {
    let mut o: Vec<(Ev, bool)> = vec![];
    let mut rects: Vec<(u32, u32, u32, u32)> = vec![];
    let mut key: Option<(Rgb, bool)> = None;
    fn flush(o: &mut Vec<(Ev, bool)>, rects: &mut Vec<(u32, u32, u32, u32)>, key: Option<(Rgb, bool)>) {
        rects.sort();
        let mut cur: Option<(u32, u32, u32, u32)> = None;
        let mut put = |r: (u32, u32, u32, u32)| {
            let (c, p) = key.unwrap();
            o.push((Ev::Rect { x: r.2, y: r.0, w: r.3, h: r.1, c }, p));
        };
        for r in rects.drain(..) {
            cur = Some(match cur {
                Some(c) if c.0 == r.0 && c.1 == r.1 && c.2 + c.3 == r.2 => (c.0, c.1, c.2, c.3 + r.3),
                Some(c) => {
                    put(c);
                    r
                }
                None => r,
            });
        }
        if let Some(c) = cur {
            put(c);
        }
    }
    for (e, p) in v {
        match e {
            Ev::Rect { x, y, w, h, c } => {
                if w == 0 || h == 0 {
                    continue;
                }
                if key != Some((c, p)) {
                    flush(&mut o, &mut rects, key);
                    key = Some((c, p));
                }
                rects.push((y, h, x, w));
            }
            Ev::Img { ref b, .. } if b.w == 0 || b.h == 0 => {}
            e => {
                flush(&mut o, &mut rects, key);
                key = None;
                o.push((e, p));
            }
        }
    }
    flush(&mut o, &mut rects, key);
    o
}

fn show(e: &Ev) -> String {
    match e {
        Ev::Cell(c) => format!(
            "character {:?} at {},{} (line {}) {}x{} font {:?} fg {:?} bg {:?}{}{}{}{}{}",
            c.ch,
            c.x,
            c.y,
            c.max_h,
            c.st.w(),
            c.st.h(),
            c.st.font,
            c.st.fg,
            c.st.bg,
            if c.st.bold { " bold" } else { "" },
            if c.st.italic { " italic" } else { "" },
            if c.st.ul > 0 { format!(" underline {}", c.st.ul) } else { String::new() },
            if c.st.strike > 0 { format!(" strike {}", c.st.strike) } else { String::new() },
            if c.st.upside { " upside down" } else { "" },
        ),
        Ev::Rect { x, y, w, h, c } => format!("rectangle {},{} {}x{} {:?}", x, y, w, h, c),
        Ev::Img { x, y, b } => format!("image {},{} {}x{}", x, y, b.w, b.h),
    }
}

fn same(a: &Ev, b: &Ev, k: &Aspects) -> Result<(), String> {
    let bad = |what: &str| Err(format!("{}: expected {}, got {}", what, show(a), show(b)));
    match (a, b) {
        (Ev::Cell(p), Ev::Cell(q)) => {
            if k.chars && p.ch != q.ch {
                return bad("character");
            }
            if k.x && p.x != q.x {
                return bad("horizontal position");
            }
            if k.y && (p.y != q.y || p.max_h != q.max_h) {
                return bad("vertical position");
            }
            if k.style && p.st != q.st {
                return bad("style");
            }
        }
        (Ev::Rect { x, y, w, h, c }, Ev::Rect { x: x2, y: y2, w: w2, h: h2, c: c2 }) => {
            if k.x && (x, w) != (x2, w2) {
                return bad("horizontal position of a bar");
            }
            if k.y && (y, h) != (y2, h2) {
                return bad("vertical position of a bar");
            }
            if k.style && c != c2 {
                return bad("color of a bar");
            }
        }
        (Ev::Img { x, y, b }, Ev::Img { x: x2, y: y2, b: b2 }) => {
            if k.x && x != x2 {
                return bad("horizontal position of an image");
            }
            if k.y && y != y2 {
                return bad("vertical position of an image");
            }
            if k.graphics {
                if (b.w, b.h) != (b2.w, b2.h) {
                    return bad("size of an image");
                }
                if b.px != b2.px {
                    let i = b.px.iter().zip(&b2.px).position(|(a, b)| a != b);
                    return match i {
                        Some(i) => Err(format!(
                            "image {}x{}: dot {},{} is {:x}, expected {:x}",
                            b.w, b.h, i as u32 % b.w, i as u32 / b.w, b2.px[i], b.px[i]
                        )),
                        None => bad("number of dots of an image"),
                    };
                }
            }
        }
        _ => return bad("kind of output"),
    }
    Ok(())
}

/// Compares one document. The aspects say what is looked at.
pub fn doc(want: &Doc, got: &RecDoc, k: &Aspects) -> Result<(), String> {
    let keep = |v: Vec<(Ev, bool)>| -> Vec<(Ev, bool)> {
        let v: Vec<(Ev, bool)> = v
            .into_iter()
            .filter(|(e, _)| match e {
                Ev::Cell(_) => k.text,
                _ => k.graphics,
            })
            .collect();
        normal(v)
    };
    let (a, b) = (keep(model_events(want)), keep(got.evs.clone()));
    for (i, ((e, p), (f, q))) in a.iter().zip(&b).enumerate() {
        same(e, f, k).map_err(|m| format!("output {}: {}", i, m))?;
        if k.lines && i > 0 {
            let w = line_of(&a[i - 1].0) == line_of(e);
            let g = line_of(&b[i - 1].0) == line_of(f);
            if w != g {
                return Err(format!("output {}: {} is {}in the line of the one before", i, show(f), if g { "" } else { "not " }));
            }
        }
        if p != q {
            return Err(format!("output {}: {} is on the {}", i, show(f), if *q { "page" } else { "paper" }));
        }
    }
    if a.len() != b.len() {
        let extra = if a.len() > b.len() { format!("missing {}", show(&a[b.len()].0)) } else { format!("extra {}", show(&b[a.len()].0)) };
        return Err(format!("{} pieces of output instead of {}, {}", b.len(), a.len(), extra));
    }
    if k.y {
        if want.start_y != got.start_y {
            return Err(format!("document starts at {} instead of {}", got.start_y, want.start_y));
        }
        if want.end_y != got.end_y {
            return Err(format!("document ends at {} instead of {}", got.end_y, want.end_y));
        }
        let pages = page_prints(want);
        if pages != got.page_at {
            return Err(format!("pages printed at {:?} instead of {:?}", got.page_at, pages));
        }
    }
    Ok(())
}

pub fn docs(want: &[Doc], got: &[RecDoc], k: &Aspects) -> Result<(), String> {
    if want.len() != got.len() {
        return Err(format!("{} documents instead of {}", got.len(), want.len()));
    }
    for (i, (a, b)) in want.iter().zip(got).enumerate() {
        doc(a, b, k).map_err(|m| format!("document {}: {}", i, m))?;
    }
    Ok(())
}
