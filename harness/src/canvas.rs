//! Reference pictures: draws what the model says onto pixel grids. Shares no
//! code with the drawing of the renderers, glyph shapes come from the fonts
//! through the font library.
use crate::model::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub struct Pic {
    pub w: u32,
    pub h: u32,
    pub px: Vec<Rgb>,
}

impl Pic {
    pub fn new(w: u32, h: u32) -> Pic {
        Pic { w, h, px: vec![PAPER; (w * h) as usize] }
    }
    pub fn at(&self, x: u32, y: u32) -> Rgb {
        self.px[(y * self.w + x) as usize]
    }
    pub fn get(&self, x: i64, y: i64) -> Option<Rgb> {
        if x < 0 || y < 0 || x >= self.w as i64 || y >= self.h as i64 {
            None
        } else {
            Some(self.at(x as u32, y as u32))
        }
    }
    fn idx(&self, x: i64, y: i64) -> Option<usize> {
        if x < 0 || y < 0 || x >= self.w as i64 || y >= self.h as i64 {
            None
        } else {
            Some((y * self.w as i64 + x) as usize)
        }
    }
    pub fn expand(&mut self, h: u32) {
        if h > self.h {
            self.h = h;
            self.px.resize((self.w * h) as usize, PAPER);
        }
    }
    /// Content stays at the top left
    pub fn resized(&self, w: u32, h: u32) -> Pic {
        let mut p = Pic::new(w, h);
        for y in 0..self.h.min(h) {
            for x in 0..self.w.min(w) {
                p.px[(y * w + x) as usize] = self.at(x, y);
            }
        }
        p
    }
    /// With the unprintable margins of the paper
    pub fn with_margins(&self, left: u32, right: u32) -> Pic {
        let mut p = Pic::new(self.w + left + right, self.h);
        for y in 0..self.h {
            let a = (y * p.w + left) as usize;
            let b = (y * self.w) as usize;
            p.px[a..a + self.w as usize].copy_from_slice(&self.px[b..b + self.w as usize]);
        }
        p
    }
}

/// First place where two pictures differ by more than the tolerance
pub fn diff(want: &Pic, got: &Pic, tol: u8) -> Result<(), String> {
    if (want.w, want.h) != (got.w, got.h) {
        return Err(format!("picture is {} x {}, expected {} x {}", got.w, got.h, want.w, want.h));
    }
    let mut n = 0;
    let mut first = None;
    for (i, (a, b)) in want.px.iter().zip(&got.px).enumerate() {
        if a != b && (0..3).any(|k| a[k].abs_diff(b[k]) > tol) {
            n += 1;
            if first.is_none() {
                first = Some((i as u32 % want.w, i as u32 / want.w, *a, *b));
            }
        }
    }
    match first {
        None => Ok(()),
        Some((x, y, a, b)) => Err(format!(
            "{} pixels differ, the first at x {} y {}: expected {:?}, got {:?}",
            n, x, y, a, b
        )),
    }
}

type Coverage = Option<Rc<Vec<u8>>>;

pub struct Fonts {
    fonts: Vec<fontdue::Font>,
    cache: HashMap<(char, bool, bool, FontM, u32, u32, u32), Coverage>,
    cells: HashMap<(char, Rc<Style>), Option<Rc<Vec<Rgb>>>>,
}

const SIZE: f32 = 12.0 * 1.68;
const BASE: f32 = 0.0315;

/// size and base line ratio
fn font_size(f: FontM) -> (f32, f32) {
    match f {
        FontM::B => (SIZE * 0.8, SIZE * 0.8 * BASE),
        FontM::C => (SIZE * 0.7, SIZE * 0.5 * BASE),
        _ => (SIZE, SIZE * BASE),
    }
}

/// How far a cell is moved down in a line with taller ones
pub fn line_shift(max_h: u32, st: &Style) -> u32 {
    let r = font_size(st.font).1;
    if max_h > st.h() { (max_h as f32 * r - st.h() as f32 * r) as u32 } else { 0 }
}

pub fn underline_at(st: &Style) -> u32 {
    3 + (st.h() as f32 * font_size(st.font).1) as u32
}

pub fn strike_at(st: &Style) -> u32 {
    (st.h() as f32 / 2.5) as u32
}

impl Fonts {
    pub fn load() -> Fonts {
        let dir = std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into());
        let fonts = ["Medium", "Bold", "MediumItalic", "BoldItalic"]
            .iter()
            .map(|n| {
                let b = std::fs::read(format!("{}/thermal_renderer/resources/fonts/JetBrainsMonoNL-{}.ttf", dir, n)).expect("font");
                fontdue::Font::from_bytes(b.as_slice(), fontdue::FontSettings::default()).expect("font")
            })
            .collect();
        Fonts { fonts, cache: HashMap::new(), cells: HashMap::new() }
    }

    /// How much of each pixel of a cell is ink, None for control characters
    fn coverage(&mut self, ch: char, st: &Style, scale: u32) -> Coverage {
        let key = (ch, st.bold, st.italic, st.font, scale, st.bw, st.bh);
        if let Some(c) = self.cache.get(&key) {
            return c.clone();
        }
        let f = &self.fonts[st.bold as usize + 2 * st.italic as usize];
        let idx = f.lookup_glyph_index(ch);
        let r = if fontdue::layout::CharacterData::classify(ch, idx).is_control() {
            None
        } else {
            let size = font_size(st.font).0 * scale as f32;
            let (m, bits) = f.rasterize(ch, size);
            let lm = f.horizontal_line_metrics(size).unwrap();
            let baseline = (lm.ascent + lm.descent).ceil();
            let dy = ((baseline - m.bounds.height) - m.bounds.ymin).ceil() as u32;
            let dx = m.bounds.xmin.round().abs() as u32;
            let (w, h) = (st.bw * scale, st.bh * scale);
            let mut v = vec![0u8; (w * h) as usize];
            for (i, b) in bits.iter().enumerate() {
                let x = dx as usize + i % m.width;
                let y = dy as usize + i / m.width;
                if x < w as usize && y < h as usize {
                    v[y * w as usize + x] = *b;
                }
            }
            Some(Rc::new(v))
        };
        if self.cache.len() > 3000 {
            self.cache.clear();
        }
        self.cache.insert(key, r.clone());
        r
    }

    /// The picture of a cell: glyph on its background, without lines
    pub fn cell(&mut self, ch: char, st: &Rc<Style>) -> Option<Rc<Vec<Rgb>>> {
        let key = (ch, st.clone());
        if let Some(c) = self.cells.get(&key) {
            return c.clone();
        }
        let scale = st.wm.max(st.hm);
        let r = self.coverage(ch, st, scale).map(|cov| {
            let (rw, rh, w, h) = (st.bw * scale, st.bh * scale, st.w(), st.h());
            let (fx, fy) = (rw as f32 / w as f32, rh as f32 / h as f32);
            let mut v = Vec::with_capacity((w * h) as usize);
            for y in 0..h {
                for x in 0..w {
                    let sx = (x as f32 * fx) as u32;
                    let sy = (y as f32 * fy) as u32;
                    let a = cov[(sy * rw + sx) as usize] as f32 / 255.0;
                    let mix = |k: usize| (st.fg[k] as f32 * a + st.bg[k] as f32 * (1.0 - a)).round() as u8;
                    v.push([mix(0), mix(1), mix(2)]);
                }
            }
            Rc::new(v)
        });
        if self.cells.len() > 3000 {
            self.cells.clear();
        }
        self.cells.insert(key, r.clone());
        r
    }
}

fn multiply(d: &mut Rgb, s: Rgb) {
    for k in 0..3 {
        d[k] = ((d[k] as u32 * s[k] as u32 * 2 + 255) / 510) as u8;
    }
}

/// Draws with a mapping from the coordinates of the drawing to those of the
/// canvas. Everything is multiplied onto the canvas as ink is.
fn draw(fonts: &mut Fonts, c: &mut Pic, e: &Ev, map: &dyn Fn(u32, u32) -> (i64, i64)) {
    let put = |c: &mut Pic, x: u32, y: u32, v: Rgb| {
        let (px, py) = map(x, y);
        if let Some(i) = c.idx(px, py) {
            multiply(&mut c.px[i], v);
        }
    };
    match e {
        Ev::Rect { x, y, w, h, c: color } => {
            for dy in 0..*h {
                for dx in 0..*w {
                    put(c, x + dx, y + dy, *color);
                }
            }
        }
        Ev::Img { x, y, b } => {
            for (i, p) in b.px.iter().enumerate() {
                if *p != 0 {
                    let v = [(*p >> 16) as u8, (*p >> 8) as u8, *p as u8];
                    put(c, x + i as u32 % b.w, y + i as u32 / b.w, v);
                }
            }
        }
        Ev::Cell(cell) => {
            let st = &cell.st;
            let y0 = cell.y + line_shift(cell.max_h, st);
            let (w, h) = (st.w(), st.h());
            if let Some(v) = fonts.cell(cell.ch, st) {
                for (i, p) in v.iter().enumerate() {
                    let row = i as u32 / w;
                    let row = if st.upside { h - 1 - row } else { row };
                    put(c, cell.x + i as u32 % w, y0 + row, *p);
                }
            }
            for dx in 0..w {
                for (at, thick) in lines(st) {
                    for y in line_rows(st, y0, at, thick) {
                        put(c, cell.x + dx, y, st.fg);
                    }
                }
            }
        }
    }
}

/// The lines through and under text: distance from the top of the upright text, thickness
fn lines(st: &Style) -> [(u32, u32); 2] {
    [(underline_at(st), st.ul), (strike_at(st), st.strike)]
}

/// The rows of a line, those of text upside down are turned over with it
fn line_rows(st: &Style, y0: u32, at: u32, thick: u32) -> std::ops::Range<u32> {
    if st.upside {
        let bottom = (y0 + st.h()).saturating_sub(at);
        bottom.saturating_sub(thick)..bottom
    } else {
        y0 + at..y0 + at + thick
    }
}

/// x, bottom of the place an event takes on the paper, None if it takes none
fn extent(e: &Ev, fonts: &mut Fonts) -> Option<(u32, u32)> {
    match e {
        Ev::Rect { x, y, h, .. } => Some((*x, y + h)),
        Ev::Img { x, y, b } => Some((*x, y + b.h)),
        Ev::Cell(c) => {
            let y0 = c.y + line_shift(c.max_h, &c.st);
            let mut bottom = None;
            if fonts.cell(c.ch, &c.st).is_some() {
                bottom = Some(y0 + c.st.h());
            }
            for (at, thick) in lines(&c.st) {
                if thick > 0 {
                    bottom = bottom.max(Some(line_rows(&c.st, y0, at, thick).end));
                }
            }
            bottom.map(|b| (c.x, b))
        }
    }
}

/// The place on the page of a position in an area
pub fn place(f: &Frame, u: i64, v: i64) -> (i64, i64) {
    let (ax, ay, aw, ah) = (f.ax as i64, f.ay as i64, f.aw as i64, f.ah as i64);
    match f.dir {
        0 => (ax + u, ay + v),
        1 => (ax + v, ay + ah - 1 - u),
        2 => (ax + aw - 1 - u, ay + ah - 1 - v),
        _ => (ax + aw - 1 - v, ay + u),
    }
}

pub struct Painted {
    /// as the image renderer should give it, with margins
    pub paper: Pic,
    /// every page that was printed, where it was printed
    pub pages: Vec<(u32, u32, Pic)>,
}

pub fn paint(fonts: &mut Fonts, doc: &Doc) -> Painted {
    let mut paper = Pic::new(WIDTH, 0);
    let mut page = Pic::new(0, 0);
    let mut pages = vec![];
    for op in &doc.ops {
        match op {
            Op::Draw(e) => {
                if let Some((x, bottom)) = extent(e, fonts) {
                    if x < WIDTH {
                        paper.expand(bottom);
                        draw(fonts, &mut paper, e, &|x, y| (x as i64, y as i64));
                    }
                }
            }
            Op::PageStart => page = Pic::new(0, 0),
            Op::PageGrow { w, h } => {
                if *w > page.w || *h > page.h {
                    page = page.resized(page.w.max(*w), page.h.max(*h));
                }
            }
            Op::PageDraw(f, e) => draw(fonts, &mut page, e, &|x, y| place(f, x as i64, y as i64)),
            Op::PagePrint { x, y } => {
                pages.push((*x, *y, page.clone()));
                if *x < WIDTH {
                    paper.expand(y + page.h);
                    for py in 0..page.h {
                        for px in 0..page.w.min(WIDTH - x) {
                            let i = ((y + py) * WIDTH + x + px) as usize;
                            paper.px[i] = page.at(px, py);
                        }
                    }
                }
            }
        }
    }
    paper.expand(doc.end_y);
    Painted { paper: paper.with_margins(20, 20), pages }
}
