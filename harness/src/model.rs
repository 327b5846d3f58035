//! Reference model: interprets commands one after another and says what is
//! drawn where. It is written from the documented meaning of the commands and
//! shares no code with the parser or the renderers.
use crate::items::*;
use crate::tables::Tables;
use std::collections::HashMap;
use std::rc::Rc;

pub type Rgb = [u8; 3];
pub const PAPER: Rgb = [255, 255, 255];
pub const BLACK: Rgb = [0, 0, 0];
pub const RED: Rgb = [158, 22, 22];
pub const BLUE: Rgb = [27, 57, 169];
pub const WIDTH: u32 = 609;
pub const PAPER_WIDTH: u32 = 649;

pub fn color_number(n: u8) -> Rgb {
    match n {
        0 | 48 => PAPER,
        2 | 50 => RED,
        3 | 51 => BLUE,
        _ => BLACK,
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FontM {
    A,
    B,
    C,
    D,
    E,
    SpecialA,
    SpecialB,
}

pub fn font_of(n: u8) -> FontM {
    match n {
        1 | 49 => FontM::B,
        2 | 50 => FontM::C,
        3 | 51 => FontM::D,
        4 | 52 => FontM::E,
        97 => FontM::SpecialA,
        98 => FontM::SpecialB,
        _ => FontM::A,
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Style {
    pub font: FontM,
    /// size of a cell at scale 1
    pub bw: u32,
    pub bh: u32,
    pub wm: u32,
    pub hm: u32,
    pub bold: bool,
    pub italic: bool,
    /// 0 is off
    pub ul: u32,
    pub strike: u32,
    pub upside: bool,
    pub fg: Rgb,
    pub bg: Rgb,
}

fn cell_of(f: FontM) -> (u32, u32) {
    if f == FontM::A { (12, 24) } else { (9, 17) }
}

impl Style {
    pub fn w(&self) -> u32 {
        self.bw * self.wm
    }
    pub fn h(&self) -> u32 {
        self.bh * self.hm
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Cell {
    pub ch: char,
    pub x: u32,
    pub y: u32,
    /// height of the tallest character of the line
    pub max_h: u32,
    pub st: Rc<Style>,
}

/// 0 is transparent, otherwise 0x01rrggbb
pub type Px = u32;
pub fn px(c: Rgb) -> Px {
    0x0100_0000 | (c[0] as u32) << 16 | (c[1] as u32) << 8 | c[2] as u32
}

#[derive(Clone, Debug, PartialEq)]
pub struct Bitmap {
    pub w: u32,
    pub h: u32,
    pub px: Vec<Px>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Cell(Cell),
    Rect { x: u32, y: u32, w: u32, h: u32, c: Rgb },
    Img { x: u32, y: u32, b: Rc<Bitmap> },
}

/// A page mode print area, and the direction it is turned to
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Frame {
    pub ax: u32,
    pub ay: u32,
    pub aw: u32,
    pub ah: u32,
    pub dir: u8,
}

#[derive(Clone, Debug)]
pub enum Op {
    Draw(Ev),
    PageStart,
    PageGrow { w: u32, h: u32 },
    /// position is relative to the area, as the reader of the text sees it
    PageDraw(Frame, Ev),
    PagePrint { x: u32, y: u32 },
}

#[derive(Clone, Debug, Default)]
pub struct Doc {
    pub start_y: u32,
    pub ops: Vec<Op>,
    pub end_y: u32,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Just {
    Left,
    Center,
    Right,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum ErrKind {
    Unknown,
    Graphics,
}

type Stored = Result<Rc<Bitmap>, ()>;

#[derive(Clone)]
pub struct Qr {
    pub width: u32,
    pub modules: Vec<bool>,
    pub size: u32,
}

#[derive(Clone)]
pub struct State {
    pub font: FontM,
    pub wm: u32,
    pub hm: u32,
    pub bold: bool,
    pub italic: bool,
    pub ul: u8,
    pub strike: bool,
    pub upside: bool,
    pub fg: Rgb,
    pub bg: Rgb,
    pub just: Just,
    pub spacing: u32,
    /// columns of the tab stops
    pub tabs: Vec<u32>,
    pub table: u8,
    pub set: u8,
    pub bar_w: u32,
    pub bar_h: u32,
    pub bar_font: FontM,
    pub hri: u8,
    pub dpi: u32,
    pub hmu: u32,
    pub vmu: u32,
    pub qr_model: u8,
    pub qr_level: u8,
    pub qr_size: u32,
    pub symbol: Option<Rc<Qr>>,
    pub page: bool,
    pub area: Frame,
    pub pw: u32,
    pub ph: u32,
    pub u: u32,
    pub v: u32,
    pub buffer: Vec<Stored>,
}

impl State {
    pub fn power_on() -> State {
        State {
            font: FontM::A,
            wm: 1,
            hm: 1,
            bold: false,
            italic: false,
            ul: 0,
            strike: false,
            upside: false,
            fg: BLACK,
            bg: PAPER,
            just: Just::Left,
            spacing: 24,
            tabs: (1..=32).map(|i| i * 8).collect(),
            table: 0,
            set: 0,
            bar_w: 3,
            bar_h: 40,
            bar_font: FontM::A,
            hri: 0,
            dpi: 203,
            hmu: 1,
            vmu: 1,
            qr_model: 49,
            qr_level: 0,
            qr_size: 3,
            symbol: None,
            page: false,
            area: Frame { ax: 0, ay: 0, aw: 0, ah: 0, dir: 0 },
            pw: 0,
            ph: 0,
            u: 0,
            v: 0,
            buffer: vec![],
        }
    }
}

struct Span {
    text: String,
    st: Rc<Style>,
    just: Just,
}

pub struct Model<'a> {
    tables: &'a Tables,
    pub s: State,
    pub x: u32,
    pub y: u32,
    /// (non volatile, key 1, key 2)
    pub graphics: HashMap<(bool, u8, u8), Stored>,
    pub docs: Vec<Doc>,
    pub cur: Doc,
    pub errors: Vec<ErrKind>,
    pending: Vec<Span>,
    /// anything drawn outside the place where it can be seen, the picture
    /// is cut off there and the renderer may report it
    pub overflow: bool,
    /// moved back to above the area that is printed to
    pub above: bool,
}

pub fn bits_raster(data: &[u8], w: u32, h: u32, x: u32, y: u32) -> bool {
    let stride = (w as usize + 7) / 8;
    debug_assert!(data.len() == stride * h as usize);
    data[y as usize * stride + x as usize / 8] & (0x80 >> (x % 8)) != 0
}

pub fn bits_column(data: &[u8], w: u32, h: u32, x: u32, y: u32) -> bool {
    let stride = (h as usize + 7) / 8;
    debug_assert!(data.len() == stride * w as usize);
    data[x as usize * stride + y as usize / 8] & (0x80 >> (y % 8)) != 0
}

pub fn raster_len(w: u32, h: u32) -> usize {
    (w as usize + 7) / 8 * h as usize
}

pub fn column_len(w: u32, h: u32) -> usize {
    (h as usize + 7) / 8 * w as usize
}

fn layer(data: &[u8], w: u32, h: u32, sx: u32, sy: u32, column: bool, c: Rgb) -> Bitmap {
    let bit = if column { bits_column } else { bits_raster };
    let mut p = vec![0; (w * sx * h * sy) as usize];
    for y in 0..h {
        for x in 0..w {
            if bit(data, w, h, x, y) {
                for dy in 0..sy {
                    for dx in 0..sx {
                        p[((y * sy + dy) * (w * sx) + x * sx + dx) as usize] = px(c);
                    }
                }
            }
        }
    }
    Bitmap { w: w * sx, h: h * sy, px: p }
}

fn over(base: &mut Bitmap, top: &Bitmap) {
    for (b, t) in base.px.iter_mut().zip(&top.px) {
        if *t != 0 {
            *b = *t;
        }
    }
}

/// kc1 kc2 and the picture of a definition, None when it is too short
pub fn definition(d: &[u8], column: bool) -> Option<(u8, u8, Stored)> {
    if d.len() < 8 {
        return None;
    }
    let (w, h) = (d[4] as u32 + d[5] as u32 * 256, d[6] as u32 + d[7] as u32 * 256);
    let n = d[3] as usize;
    let per = 1 + if column { column_len(w, h) } else { raster_len(w, h) };
    let body = &d[8..];
    let mut r = Err(());
    if n > 0 && body.len() == per * n {
        let mut img = layer(&body[1..per], w, h, 1, 1, column, color_number(body[0]));
        for i in 1..n {
            let p = &body[i * per..(i + 1) * per];
            over(&mut img, &layer(&p[1..], w, h, 1, 1, column, color_number(p[0])));
        }
        r = Ok(Rc::new(img));
    }
    Some((d[1], d[2], r))
}

/// The picture of data for the print buffer
pub fn buffer_layer(d: &[u8], column: bool) -> Stored {
    if d.len() < 8 || d[1] > 2 || d[2] > 2 {
        return Err(());
    }
    let (w, h) = (d[4] as u32 + d[5] as u32 * 256, d[6] as u32 + d[7] as u32 * 256);
    let len = if column { column_len(w, h) } else { raster_len(w, h) };
    if d.len() - 8 != len {
        return Err(());
    }
    Ok(Rc::new(layer(&d[8..], w, h, d[1].max(1) as u32, d[2].max(1) as u32, column, color_number(d[3]))))
}

/// Bars and human readable text of a linear bar code, None when the data
/// can't be encoded. Patterns that come from a library are decoded
/// independently by the check for bar codes.
pub fn bars(kind: u8, data: &[u8]) -> Option<(Vec<u8>, String)> {
    use barcoders::sym::{code39::Code39, ean13::EAN13, ean8::EAN8, tf::TF};
    use crate::barcodes as own;
    let s = std::str::from_utf8(data).ok()?;
    let n = data.len();
    let digits = s.bytes().all(|b| b.is_ascii_digit());
    let k = if kind >= 65 { kind - 65 } else { kind };
    let p = match k {
        0 if (n == 11 || n == 12) && digits => EAN13::new(format!("0{}", &s[..11])).ok()?.encode(),
        1 => own::upce_encode(s)?,
        2 if (n == 12 || n == 13) && digits => EAN13::new(&s[..12]).ok()?.encode(),
        3 if n == 7 || n == 8 => EAN8::new(s).ok()?.encode(),
        4 if n > 0 => {
            let t = s.strip_prefix('*').unwrap_or(s);
            Code39::new(t.strip_suffix('*').unwrap_or(t)).ok()?.encode()
        }
        5 if n > 1 && digits => {
            let mut t = s.to_string();
            if n % 2 == 1 {
                let v: Vec<u8> = s.bytes().map(|b| b - 48).collect();
                t.push((48 + own::check_digit(&v)) as char);
            }
            TF::interleaved(t).ok()?.encode()
        }
        6 if n > 1 => own::codabar(s)?,
        7 if kind == 72 && n > 0 => own::code93(s)?,
        8 if kind == 73 && n > 1 => return own::code128(data),
        _ => return None,
    };
    Some((p, s.to_string()))
}

/// The padding of qr_code is wrong where the terminator ends inside of a last
/// codeword of four bits
fn encode_qr(data: &[u8], v: qr_code::Version, ec: qr_code::EcLevel) -> qr_code::types::QrResult<(Vec<bool>, u32)> {
    let mut b = qr_code::bits::Bits::new(v);
    b.push_optimal_data(data)?;
    let max = b.max_len(ec)?;
    if b.len() <= max && max % 8 == 4 {
        if let qr_code::Version::Micro(n) = v {
            let end = (b.len() + n as usize * 2 + 1).min(max);
            if end > max - 4 {
                b.push_number_checked(max - b.len(), 0)?;
            }
        }
    }
    b.push_terminator(ec)?;
    if let (qr_code::Version::Micro(3), qr_code::EcLevel::L) = (v, ec) {
        // 84 data bits, then the error correction
        let (d, e) = qr_code::ec::construct_codewords(&b.into_bytes(), v, ec)?;
        let mut bits: Vec<bool> = d.iter().flat_map(|b| (0..8).rev().map(move |i| b >> i & 1 == 1)).collect();
        bits.truncate(84);
        bits.extend(e.iter().flat_map(|b| (0..8).rev().map(move |i| b >> i & 1 == 1)));
        let packed: Vec<u8> = bits.chunks(8).map(|c| c.iter().enumerate().fold(0, |a, (i, b)| a | (*b as u8) << (7 - i))).collect();
        let mut c = qr_code::canvas::Canvas::new(v, ec);
        c.draw_all_functional_patterns();
        c.draw_data(&packed, &[]);
        return Ok((c.apply_best_mask().into_colors().into_iter().map(|c| c == qr_code::types::Color::Dark).collect(), 15));
    }
    let q = qr_code::QrCode::with_bits(b, ec)?;
    Ok((q.to_vec(), q.width() as u32))
}

/// The symbol a QR code of this data has, the smallest that fits
pub fn qr_symbol(model: u8, level: u8, size: u32, data: &[u8]) -> Option<Qr> {
    use qr_code::{EcLevel, Version};
    let ec = [EcLevel::L, EcLevel::M, EcLevel::Q, EcLevel::H][level as usize];
    let max = match model {
        50 => 40,
        51 => 4,
        _ => 14,
    };
    // no symbol of a lower version than this holds the bytes
    let mut v = 1;
    if model != 51 {
        while v < max && crate::qr::byte_capacity_l(v as u32) < data.len() {
            v += 1;
        }
    }
    while v <= max {
        let ver = if model == 51 { Version::Micro(v) } else { Version::Normal(v) };
        if let Ok((modules, width)) = encode_qr(data, ver, ec) {
            return Some(Qr { width, modules, size });
        }
        v += 1;
    }
    None
}

impl<'a> Model<'a> {
    pub fn new(tables: &'a Tables) -> Model<'a> {
        let mut m = Model {
            tables,
            s: State::power_on(),
            x: 0,
            y: 0,
            graphics: HashMap::new(),
            docs: vec![],
            cur: Doc::default(),
            errors: vec![],
            pending: vec![],
            overflow: false,
            above: false,
        };
        m.doc_start();
        m
    }

    pub fn run(tables: &'a Tables, items: &[Item]) -> Model<'a> {
        let mut m = Model::new(tables);
        for i in coalesce(items) {
            m.step(&i);
        }
        m.finish();
        m
    }

    pub fn finish(&mut self) {
        self.flush();
        self.doc_end();
    }

    fn doc_start(&mut self) {
        self.x = 0;
        self.y = 60 + 2 * self.s.spacing;
        self.cur = Doc { start_y: self.y, ..Doc::default() };
    }

    fn doc_end(&mut self) {
        self.cur.end_y = self.y;
        self.docs.push(std::mem::take(&mut self.cur));
    }

    fn draw(&mut self, e: Ev) {
        if self.s.page {
            self.cur.ops.push(Op::PageDraw(self.s.area, e));
        } else {
            self.cur.ops.push(Op::Draw(e));
        }
    }

    pub fn gx(&self) -> u32 {
        if self.s.page { self.s.u } else { self.x }
    }
    pub fn gy(&self) -> u32 {
        if self.s.page { self.s.v } else { self.y }
    }
    fn set_x(&mut self, x: u32) {
        if self.s.page { self.s.u = x } else { self.x = x }
    }
    fn set_y(&mut self, y: u32) {
        if self.s.page { self.s.v = y } else { self.y = y }
    }
    /// Moves up, to the top at most
    fn back(&mut self, d: i64) {
        if self.gy() as i64 >= d {
            self.set_y((self.gy() as i64 - d) as u32);
            return;
        }
        if self.s.page {
            let a = self.s.area;
            let room = match a.dir {
                0 => a.ay,
                1 => a.ax,
                2 => self.s.ph - (a.ay + a.ah),
                _ => self.s.pw - (a.ax + a.aw),
            };
            self.above |= room > 0;
        }
        self.set_y(0);
    }
    /// size of the area as the reader of the text sees it
    fn area_size(&self) -> (u32, u32) {
        let a = self.s.area;
        if a.dir % 2 == 1 { (a.ah, a.aw) } else { (a.aw, a.ah) }
    }
    pub fn width(&self) -> u32 {
        if self.s.page { self.area_size().0 } else { WIDTH }
    }
    pub fn avail(&self) -> u32 {
        self.width().saturating_sub(self.gx())
    }
    fn newline(&mut self, n: u32) {
        self.set_x(0);
        self.set_y(self.gy() + n * self.s.spacing);
    }

    pub fn style(&self) -> Style {
        let s = &self.s;
        let (bw, bh) = cell_of(s.font);
        let points = |n: u32| n * s.dpi / 96;
        Style {
            font: s.font,
            bw,
            bh,
            wm: s.wm,
            hm: s.hm,
            bold: s.bold,
            italic: s.italic,
            ul: s.ul as u32,
            strike: if s.strike { points(2) } else { 0 },
            upside: s.upside,
            fg: s.fg,
            bg: s.bg,
        }
    }

    fn text(&mut self, t: String) {
        let st = Rc::new(self.style());
        self.pending.push(Span { text: t, st, just: self.s.just });
    }

    pub fn flush(&mut self) {
        let spans = std::mem::take(&mut self.pending);
        if spans.is_empty() {
            return;
        }
        // (text, style, justification)
        let mut words: Vec<(Vec<char>, Rc<Style>, Just)> = vec![];
        for sp in &spans {
            let mut w = vec![];
            for c in sp.text.chars() {
                w.push(c);
                if c.is_whitespace() {
                    words.push((std::mem::take(&mut w), sp.st.clone(), sp.just));
                }
            }
            if !w.is_empty() {
                words.push((w, sp.st.clone(), sp.just));
            }
        }
        type Placed = (Vec<char>, Rc<Style>, Just, u32, u32);
        let mut line: Vec<Placed> = vec![];
        let mut lines: Vec<Vec<Placed>> = vec![];
        let max = self.width();
        for (w, st, j) in words {
            let cw = st.w();
            if w == ['\n'] {
                self.end_line(&mut line, &mut lines);
            } else if w == ['\r'] {
            } else if w == ['\t'] {
                let x = self.gx();
                if let Some(t) = self.s.tabs.iter().find(|t| **t * cw > x) {
                    self.set_x(*t * cw);
                }
            } else {
                let wide = w.len() as u32 * cw;
                if wide <= self.avail() {
                    self.place(&mut line, w, st, j);
                } else if wide > max {
                    let first = (self.avail() / cw) as usize;
                    let per = ((max / cw) as usize).max(1);
                    let (a, mut rest) = w.split_at(first);
                    if !a.is_empty() {
                        self.place(&mut line, a.to_vec(), st.clone(), j);
                    }
                    while !rest.is_empty() {
                        self.end_line(&mut line, &mut lines);
                        let n = per.min(rest.len());
                        let (b, r) = rest.split_at(n);
                        self.place(&mut line, b.to_vec(), st.clone(), j);
                        rest = r;
                    }
                } else {
                    self.end_line(&mut line, &mut lines);
                    self.place(&mut line, w, st, j);
                }
            }
        }
        lines.push(line);
        for l in lines {
            let Some(first) = l.first() else { continue };
            let extent = l.iter().map(|p| p.3 + p.0.len() as u32 * p.1.w()).max().unwrap();
            let off = match first.2 {
                Just::Left => 0,
                Just::Right => max.saturating_sub(extent),
                Just::Center => max.saturating_sub(extent) / 2,
            };
            let max_h = l.iter().map(|p| p.1.h()).max().unwrap();
            for (w, st, _, x, y) in l {
                for (i, ch) in w.into_iter().enumerate() {
                    let x = x + off + i as u32 * st.w();
                    if x + st.w() > max {
                        self.overflow = true;
                    }
                    self.draw(Ev::Cell(Cell { ch, x, y, max_h, st: st.clone() }));
                }
            }
        }
    }

    fn place(&mut self, line: &mut Vec<(Vec<char>, Rc<Style>, Just, u32, u32)>, w: Vec<char>, st: Rc<Style>, j: Just) {
        let (x, y) = (self.gx(), self.gy());
        self.set_x(x + w.len() as u32 * st.w());
        line.push((w, st, j, x, y));
    }

    fn end_line(
        &mut self, line: &mut Vec<(Vec<char>, Rc<Style>, Just, u32, u32)>,
        lines: &mut Vec<Vec<(Vec<char>, Rc<Style>, Just, u32, u32)>>,
    ) {
        let h = line.iter().map(|p| p.1.h()).max().unwrap_or(0).max(self.s.spacing);
        self.set_x(0);
        self.set_y(self.gy() + h);
        lines.push(std::mem::take(line));
    }

    pub fn justified(&self, w: u32) -> u32 {
        let free = self.width().saturating_sub(w);
        match self.s.just {
            Just::Left => 0,
            Just::Center => free / 2,
            Just::Right => free,
        }
    }

    fn hri_text(&mut self, t: &str) {
        let mut st = self.style();
        st.font = self.s.bar_font;
        (st.bw, st.bh) = cell_of(st.font);
        // control characters are shown as spaces
        let text = t.chars().map(|c| if c.is_ascii_control() { ' ' } else { c }).collect();
        let h = st.h();
        self.pending.push(Span { text, st: Rc::new(st), just: self.s.just });
        self.flush();
        // nothing is printed over it
        self.set_x(0);
        self.set_y(self.gy() + h.max(self.s.spacing));
    }

    fn image(&mut self, b: Rc<Bitmap>, inline: bool) {
        let (w, h) = (b.w, b.h);
        if inline {
            if w > self.avail() {
                self.newline(1);
            }
        } else if !self.s.page {
            self.x = self.justified(w);
        }
        if self.gx() + w > self.width() {
            self.overflow = true;
        }
        self.draw(Ev::Img { x: self.gx(), y: self.gy(), b });
        if inline {
            self.set_x(self.gx() + w);
        } else if !self.s.page {
            self.y += h;
            self.x = 0;
        }
    }

    fn stored(&mut self, r: Stored) {
        match r {
            Ok(b) => self.image(b, false),
            Err(()) => self.errors.push(ErrKind::Graphics),
        }
    }

    fn page_reset(&mut self) {
        let dir = self.s.area.dir;
        self.s.area = Frame { ax: 0, ay: 0, aw: 0, ah: 0, dir };
        self.s.pw = 0;
        self.s.ph = 0;
        self.s.u = 0;
        self.s.v = 0;
        self.cur.ops.push(Op::PageStart);
    }

    fn page_apply(&mut self) {
        let a = self.s.area;
        self.s.pw = self.s.pw.max(a.ax + a.aw);
        self.s.ph = self.s.ph.max(a.ay + a.ah);
        self.s.u = 0;
        self.s.v = 0;
        self.cur.ops.push(Op::PageGrow { w: self.s.pw, h: self.s.ph });
    }

    fn page_print(&mut self) {
        self.cur.ops.push(Op::PagePrint { x: self.x, y: self.y });
        self.y += self.s.ph;
        self.x = 0;
    }

    /// Whether a command ends the line that is being collected
    pub fn step(&mut self, it: &Item) {
        use Item::*;
        match it {
            // text and its style are collected
            Text(t) => {
                let d = self.tables.decode(self.s.table, self.s.set, t);
                self.text(d)
            }
            Lf => self.text("\n".into()),
            Cr => self.text("\r".into()),
            Ht => self.text("\t".into()),
            PrintMode(n) => {
                let s = &mut self.s;
                s.font = if n & 1 != 0 { FontM::B } else { FontM::A };
                s.bold = n & 8 != 0;
                s.hm = if n & 16 != 0 { 2 } else { 1 };
                s.wm = if n & 32 != 0 { 2 } else { 1 };
                s.ul = if n & 128 != 0 { 1 } else { 0 };
            }
            Font(n) => self.s.font = font_of(*n),
            Emphasis(n) => self.s.bold = n & 1 != 0,
            Strike(n) => self.s.strike = n & 1 != 0,
            Underline(n) => {
                self.s.ul = match n {
                    1 | 49 => 1,
                    2 | 50 => 2,
                    _ => 0,
                }
            }
            Upside(n) => self.s.upside = n & 1 != 0,
            Italic(n) => self.s.italic = n & 1 != 0,
            Table(n) => self.s.table = *n,
            Charset(n) => self.s.set = *n,
            AltColor(n) => self.s.fg = if *n == 1 || *n == 49 { RED } else { BLACK },
            Invert(n) => {
                let on = *n & 1 == 1;
                self.s.bg = if on { BLACK } else { PAPER };
                self.s.fg = if on { PAPER } else { BLACK };
            }
            Smooth(_) => {}
            CharSize(n) => {
                self.s.hm = (*n as u32 & 7) + 1;
                self.s.wm = (*n as u32 >> 4 & 7) + 1;
            }
            Effects(f, d) => match f {
                48 => self.s.fg = color_number(d.first().copied().unwrap_or(48)),
                49 => self.s.bg = color_number(d.first().copied().unwrap_or(48)),
                _ => {}
            },
            // these do nothing, not even to a line of text
            Periph(_) | Pulse(..) | Sensor(..) | PrinterId(_) | Response(..) | GsG(_) => {}
            PageFf if !self.s.page => {}
            Cut(m, _) if ![0, 48, 1, 49, 65, 97, 103, 66, 98, 104].contains(m) => {}
            i if i.is_unknown() => self.errors.push(ErrKind::Unknown),
            Raw(_) => {}
            _ => {
                self.flush();
                self.step2(it);
            }
        }
    }

    fn step2(&mut self, it: &Item) {
        use Item::*;
        match it {
            Cancel => {}
            Tab(v) => self.s.tabs = v.iter().filter(|c| **c != 0).map(|c| *c as u32).collect(),
            Just(n) => {
                self.s.just = match n {
                    1 | 49 => self::Just::Center,
                    2 | 50 => self::Just::Right,
                    _ => self::Just::Left,
                }
            }
            DefaultSpacing => self.s.spacing = 24,
            Spacing(n) => self.s.spacing = *n as u32,
            BarHeight(n) => self.s.bar_h = *n as u32,
            BarWidth(n) => {
                if *n <= 6 {
                    self.s.bar_w = (*n as u32).max(2)
                }
            }
            BarFont(n) => self.s.bar_font = font_of(*n),
            Hri(n) => {
                self.s.hri = match n {
                    1 | 49 => 1,
                    2 | 50 => 2,
                    3 | 51 => 3,
                    _ => 0,
                }
            }
            Motion(x, y) => {
                let unit = |n: u8| if n == 0 { 1 } else { (self.s.dpi / n as u32).clamp(1, 255) };
                let (h, v) = (unit(*x), unit(*y));
                self.s.hmu = h;
                self.s.vmu = v;
            }
            AbsX(n) => {
                let n = *n as u32 / self.s.hmu;
                let (w, h) = self.area_size();
                if !self.s.page {
                    self.x = n;
                } else {
                    match self.s.area.dir {
                        0 => self.s.u = n,
                        1 => self.s.v = n,
                        2 => self.s.u = w.saturating_sub(n),
                        _ => self.s.v = h.saturating_sub(n),
                    }
                }
            }
            AbsY(n) => {
                let n = *n as u32 / self.s.vmu;
                let (w, h) = self.area_size();
                if self.s.page {
                    match self.s.area.dir {
                        0 => self.s.v = n,
                        1 => self.s.u = w.saturating_sub(n),
                        2 => self.s.v = h.saturating_sub(n),
                        _ => self.s.u = n,
                    }
                }
            }
            RelY(n) => {
                if self.s.page {
                    let d = *n as i64 / self.s.vmu as i64;
                    self.back(-d);
                }
            }
            StdMode => self.s.page = false,
            PageMode => {
                self.s.page = true;
                self.page_reset();
            }
            Area(x, y, w, h) => {
                if self.s.page {
                    let ax = (*x as u32 / self.s.hmu).min(WIDTH);
                    self.s.area.ax = ax;
                    self.s.area.ay = *y as u32 / self.s.vmu;
                    self.s.area.aw = (*w as u32 / self.s.hmu).min(WIDTH - ax);
                    self.s.area.ah = *h as u32 / self.s.vmu;
                    self.page_apply();
                }
            }
            Dir(n) => {
                if self.s.page {
                    self.s.area.dir = match n {
                        1 | 49 => 1,
                        2 | 50 => 2,
                        3 | 51 => 3,
                        _ => 0,
                    };
                    self.page_apply();
                }
            }
            FeedLines(n) => self.newline(*n as u32),
            ReverseLines(n) => {
                self.set_x(0);
                self.back((*n as u32 * self.s.spacing) as i64);
            }
            FeedDots(n) => {
                self.set_x(0);
                self.set_y(self.gy() + *n as u32);
            }
            Cut(m, n) => {
                self.newline(2);
                if *m >= 65 {
                    self.set_y(self.gy() + *n as u32);
                }
            }
            Ff => {
                if self.s.page {
                    self.s.page = false;
                    self.page_print();
                } else {
                    self.doc_end();
                    self.doc_start();
                }
            }
            PageFf => self.page_print(),
            Init => {
                self.s = State::power_on();
                self.graphics.retain(|k, _| k.0);
            }
            Barcode(k, d) => self.barcode(*k, d),
            BitImage(m, w, d) => {
                let h = if *m == 32 || *m == 33 { 24 } else { 8 };
                // single density is half as fine, eight dots are as high as 24
                let sx = if *m == 0 || *m == 32 { 2 } else { 1 };
                let sy = if *m == 0 || *m == 1 { 3 } else { 1 };
                let b = layer(d, *w as u32, h, sx, sy, true, BLACK);
                self.image(Rc::new(b), true);
            }
            Raster(m, w, h, d) => {
                let (sx, sy) = match m {
                    1 | 49 => (2, 1),
                    2 | 50 => (1, 2),
                    3 | 51 => (2, 2),
                    _ => (1, 1),
                };
                let b = layer(d, *w as u32 * 8, *h as u32, sx, sy, false, BLACK);
                self.image(Rc::new(b), false);
            }
            Code2d(cn, f, d) => self.code2d(*cn, *f, d),
            Gfx(_, _, f, d) => self.gfx(*f, d),
            _ => unreachable!("{:?}", it),
        }
    }

    fn barcode(&mut self, k: u8, d: &[u8]) {
        let Some((p, t)) = bars(k, d) else {
            self.errors.push(ErrKind::Graphics);
            return;
        };
        if self.s.hri & 1 != 0 {
            self.hri_text(&t);
        }
        let (w, h) = (self.s.bar_w, self.s.bar_h);
        let mut x = self.justified(p.len() as u32 * w);
        let y = self.gy();
        for b in p {
            if b > 0 && x + w <= self.width() {
                self.draw(Ev::Rect { x, y, w, h, c: self.s.fg });
            } else if b > 0 {
                self.overflow = true;
            }
            x += w;
        }
        self.set_x(0);
        self.set_y(y + h);
        if self.s.hri & 2 != 0 {
            self.set_y(self.gy() + 8);
            self.hri_text(&t);
        }
    }

    fn code2d(&mut self, cn: u8, f: u8, d: &[u8]) {
        match (cn, f) {
            (49, 65) => {
                self.s.qr_model = match d.first() {
                    Some(50) => 50,
                    Some(51) => 51,
                    _ => 49,
                }
            }
            (49, 67) => self.s.qr_size = d.first().copied().unwrap_or(1) as u32,
            (49, 69) => {
                self.s.qr_level = match d.first() {
                    Some(1 | 49) => 1,
                    Some(2 | 50) => 2,
                    Some(3 | 51) => 3,
                    _ => 0,
                }
            }
            (49, 80) => {
                let data = d.get(1..).unwrap_or(&[]);
                self.s.symbol = qr_symbol(self.s.qr_model, self.s.qr_level, self.s.qr_size, data).map(Rc::new);
            }
            (49, 81) => match self.s.symbol.clone() {
                None => self.errors.push(ErrKind::Graphics),
                Some(q) => {
                    let x0 = self.justified(q.width * q.size);
                    let y0 = self.gy();
                    for (i, m) in q.modules.iter().enumerate() {
                        let x = x0 + i as u32 % q.width * q.size;
                        let y = y0 + i as u32 / q.width * q.size;
                        if *m && x + q.size <= self.width() {
                            self.draw(Ev::Rect { x, y, w: q.size, h: q.size, c: self.s.fg });
                        } else if *m {
                            self.overflow = true;
                        }
                    }
                    self.set_x(0);
                    self.set_y(y0 + q.width * q.size);
                }
            },
            _ => {}
        }
    }

    fn gfx(&mut self, f: u8, d: &[u8]) {
        let key = |nv: bool| if d.len() >= 2 { Some((nv, d[0], d[1])) } else { None };
        match f {
            65 => self.graphics.retain(|k, _| !k.0),
            81 => self.graphics.retain(|k, _| k.0),
            66 | 82 => {
                if let Some(k) = key(f == 66) {
                    self.graphics.remove(&k);
                }
            }
            67 | 68 | 83 | 84 => {
                if let Some((a, b, r)) = definition(d, f == 68 || f == 84) {
                    self.graphics.insert((f < 80, a, b), r);
                }
            }
            69 | 85 => {
                if let Some(r) = key(f == 69).and_then(|k| self.graphics.get(&k).cloned()) {
                    self.stored(r);
                }
            }
            112 | 113 => self.s.buffer.push(buffer_layer(d, f == 113)),
            2 | 50 => {
                let layers = std::mem::take(&mut self.s.buffer);
                if layers.iter().any(|l| l.is_err()) {
                    self.errors.push(ErrKind::Graphics);
                } else if !layers.is_empty() {
                    let l: Vec<Rc<Bitmap>> = layers.into_iter().map(|l| l.unwrap()).collect();
                    if l.iter().any(|b| b.w != l[0].w || b.h != l[0].h) {
                        self.errors.push(ErrKind::Graphics);
                    } else {
                        let mut b = (*l[0]).clone();
                        for t in &l[1..] {
                            over(&mut b, t);
                        }
                        self.image(Rc::new(b), false);
                    }
                }
            }
            1 | 49 => {
                let x = d.first().copied().unwrap_or(50);
                let y = d.get(1).copied().unwrap_or(50);
                if x == 50 && y == 50 {
                    self.s.dpi = 180;
                } else if x == 51 && y == 51 {
                    self.s.dpi = 360;
                }
            }
            _ => {}
        }
    }
}
