//! C23: debugging adds marks and changes nothing else
use super::*;
use crate::canvas::line_shift;
use crate::gen::*;
use crate::sut::no_debug;
use thermal_renderer::renderer::DebugProfile;

const MARGIN: u32 = 20;

fn g_debug_job(s: &mut Src) -> Vec<Item> {
    let n = s.len(8);
    let mut v = g_job(s, n, &Mix { page: 0, image: 4, gfx: 3, tables: 0, ff: 1, ..MIXED });
    if s.chance(1, 3) {
        let at = s.below(v.len() as u64 + 1) as usize;
        let p = g_page(s);
        v.splice(at..at, p);
    }
    v
}

/// The log goes to the console, it is not part of the receipt
fn c23_log(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let v = g_debug_job(s);
    let job = send(o, &v);
    o.nontrivial = v.len() > 2;
    let info = DebugProfile { info: true, ..no_debug() };
    let (a, b) = (e.sut.picture(&job), e.sut.picture_dbg(&job, info));
    if a.docs != b.docs || a.errors != b.errors {
        return Err("the debug log changes the picture or its errors".into());
    }
    let (a, b) = (e.sut.html(&job), e.sut.html_dbg(&job, info));
    if a.docs != b.docs || a.errors != b.errors {
        return Err("the debug log changes the html or its errors".into());
    }
    Ok(())
}

/// Where marks may be
struct Mask {
    w: u32,
    h: u32,
    on: Vec<bool>,
}

impl Mask {
    fn fill(&mut self, x: u32, y: u32, w: u32, h: u32) {
        // x counts from the margin, what is beyond it is cut off
        for j in y..(y + h).min(self.h) {
            for i in x + MARGIN..(x + w + MARGIN).min(self.w - MARGIN) {
                self.on[(j * self.w + i) as usize] = true;
            }
        }
    }
    fn ring(&mut self, x: u32, y: u32, w: u32, h: u32) {
        if w == 0 || h == 0 {
            return;
        }
        self.fill(x, y, w, 1);
        self.fill(x, y + h - 1, w, 1);
        self.fill(x, y, 1, h);
        self.fill(x + w - 1, y, 1, h);
    }
}

fn c23_marks(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let v = g_debug_job(s);
    let job = send(o, &v);
    let w = want(&e.tables, &v);
    let bits = 1 + s.below(7);
    let p = DebugProfile { text: bits & 1 != 0, image: bits & 2 != 0, page: bits & 4 != 0, info: s.chance(1, 8) };
    o.desc(|| format!("text {} image {} page {} info {}", p.text, p.image, p.page, p.info));
    let (a, b) = (e.sut.picture(&job), e.sut.picture_dbg(&job, p));
    if a.docs.len() != b.docs.len() || a.docs.len() != w.docs.len() {
        return Err(format!("{} pictures with debugging, {} without", b.docs.len(), a.docs.len()));
    }
    // what is cut off may be reported for its mark once more
    let kinds = |o: &crate::sut::Out<crate::canvas::Pic>| -> Vec<Kind> { o.kinds().into_iter().filter(|k| *k != Kind::Child).collect() };
    if kinds(&a) != kinds(&b) {
        return Err(format!("{:?} is reported with debugging, {:?} without", b.errors, a.errors));
    }
    for (n, ((a, b), d)) in a.docs.iter().zip(&b.docs).zip(&w.docs).enumerate() {
        if (a.w, a.h) != (b.w, b.h) {
            return Err(format!("picture {} is {}x{} with debugging, {}x{} without", n, b.w, b.h, a.w, a.h));
        }
        let mut m = Mask { w: a.w, h: a.h, on: vec![false; a.px.len()] };
        let mut marked = 0;
        let (mut pw, mut ph) = (0, 0);
        for op in &d.ops {
            match op {
                Op::Draw(Ev::Cell(c)) if p.text => {
                    let y = c.y + line_shift(c.max_h, &c.st);
                    m.fill(c.x, y, c.st.w(), c.st.h());
                    marked += (c.x + c.st.w() < 609) as u32;
                }
                Op::Draw(Ev::Img { x, y, b }) if p.image => {
                    m.ring(*x, *y, b.w, b.h);
                    marked += (*x < 609 && b.w > 0 && b.h > 0) as u32;
                }
                Op::PageStart => (pw, ph) = (0, 0),
                Op::PageGrow { w, h } => (pw, ph) = (pw.max(*w), ph.max(*h)),
                Op::PagePrint { x, y } => {
                    // text and images of a page are not told apart
                    if p.text || p.image {
                        m.fill(*x, *y, pw, ph);
                    } else {
                        m.ring(*x, *y, pw, ph);
                        marked += (*x < 609 && pw > 0 && ph > 0) as u32;
                    }
                }
                _ => {}
            }
        }
        let mut found = 0;
        for (i, (x, y)) in a.px.iter().zip(&b.px).enumerate() {
            if x == y {
                continue;
            }
            found += 1;
            if !m.on[i] {
                return Err(format!("picture {}: dot {},{} is {:?} with debugging and {:?} without", n, i as u32 % a.w, i as u32 / a.w, y, x));
            }
        }
        o.nontrivial |= found > 0;
        // nothing can hide the marks of the only thing there is
        let things = d.ops.iter().filter(|o| matches!(o, Op::Draw(_) | Op::PageDraw(..) | Op::PagePrint { .. })).count();
        o.label_if(things == 1 && marked == 1, "single");
        if found == 0 && marked == 1 && things == 1 {
            return Err(format!("picture {} has no marks", n));
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop<Env>> {
    vec![Prop {
        id: "C23",
        rule: "a case is non-trivial when marks are seen in the picture (marks) or the job has more than two commands (log); distinct by the bytes sent",
        assumptions: &[
            "text, images and pages may be marked anywhere in the cell of the text, on the border of the image or page; on a page with marked content anywhere",
            "what is drawn beyond the paper may be reported once more for its mark",
        ],
        subs: vec![
            sub("log", c23_log, 4_000, 40_000),
            sub("marks", c23_marks, 4_000, 60_000),
        ],
    }]
}
