//! The system under test: parser, recording renderer, picture and html.
use crate::canvas::Pic;
use crate::model::{Bitmap, Cell, Ev, FontM, Px, Rgb, Style};
use std::rc::Rc;
use thermal_parser::command::{Command, CommandType, DeviceCommand};
use thermal_parser::context::{Context, Font, Rotation, TextJustify};
use thermal_parser::graphics::{Image, VectorGraphic, RGBA};
use thermal_parser::text::TextSpan;
use thermal_renderer::html_renderer::{HtmlRenderer, ReceiptHtml};
use thermal_renderer::image_renderer::{ImageRenderer, ReceiptImage};
use thermal_renderer::renderer::{DebugProfile, OutputRenderer, RenderError, Renderer};

/// What was asked to be drawn in one document
#[derive(Clone, Debug, Default, PartialEq)]
pub struct RecDoc {
    pub start_y: u32,
    pub end_y: u32,
    /// the second is whether it was drawn on a page
    pub evs: Vec<(Ev, bool)>,
    /// number of pages printed
    pub pages: u32,
    /// paper y and x of each page print
    pub page_at: Vec<(u32, u32)>,
    pub begins: u32,
    /// the longest side any page had
    pub page_side: u32,
}

impl RecDoc {
    /// how tall a picture of it gets
    pub fn extent(&self) -> u32 {
        let mut m = self.end_y.max(self.page_side);
        for (e, page) in &self.evs {
            if *page {
                continue;
            }
            m = m.max(match e {
                Ev::Cell(c) => c.y.saturating_add(c.max_h),
                Ev::Rect { y, h, .. } => y.saturating_add(*h),
                Ev::Img { y, b, .. } => y.saturating_add(b.h),
            });
        }
        for p in &self.page_at {
            m = m.max(p.1.saturating_add(self.page_side));
        }
        m
    }
}

#[derive(Default)]
pub struct Recorder {
    doc: RecDoc,
}

pub fn rgb(c: &RGBA) -> Rgb {
    [c.r, c.g, c.b]
}

fn font(f: &Font) -> FontM {
    match f {
        Font::A => FontM::A,
        Font::B => FontM::B,
        Font::C => FontM::C,
        Font::D => FontM::D,
        Font::E => FontM::E,
        Font::SpecialA => FontM::SpecialA,
        Font::SpecialB => FontM::SpecialB,
    }
}

fn px_of(c: &RGBA) -> Px {
    if c.a == 0 {
        0
    } else {
        // other than opaque and transparent does not occur, keep it visible
        ((c.a as u32) / 255 + if c.a == 255 { 0 } else { 2 }) << 24 | (c.r as u32) << 16 | (c.g as u32) << 8 | c.b as u32
    }
}

/// Top left corner of what positions are relative to
fn origin(c: &Context) -> (u32, u32) {
    if c.page_mode.enabled {
        (c.page_mode.page_area.x, c.page_mode.page_area.y)
    } else {
        (0, 0)
    }
}

impl OutputRenderer<RecDoc> for Recorder {
    fn set_debug_profile(&mut self, _profile: DebugProfile) {}
    fn begin_render(&mut self, context: &mut Context) {
        self.doc.begins += 1;
        self.doc.start_y = context.graphics.render_area.y;
        if context.graphics.render_area.x != 0 {
            self.doc.start_y += 1_000_000;
        }
    }
    fn page_begin(&mut self, _context: &mut Context) {}
    fn page_area_changed(&mut self, _context: &mut Context, _rotation: Rotation, width: u32, height: u32) {
        self.doc.page_side = self.doc.page_side.max(width).max(height);
    }
    fn render_page(&mut self, context: &mut Context) {
        self.doc.pages += 1;
        self.doc.page_at.push((context.graphics.render_area.x, context.graphics.render_area.y));
    }
    fn render_graphics(&mut self, context: &mut Context, graphics: &Vec<VectorGraphic>) {
        for g in graphics {
            let VectorGraphic::Rectangle(r) = g;
            let (ox, oy) = origin(context);
            let e = Ev::Rect { x: r.x.wrapping_sub(ox), y: r.y.wrapping_sub(oy), w: r.w, h: r.h, c: rgb(&context.text.color) };
            self.doc.evs.push((e, context.page_mode.enabled));
        }
    }
    fn render_image(&mut self, context: &mut Context, image: &Image) {
        let mut px: Vec<Px> = image.pixels.iter().map(px_of).collect();
        if image.upside_down {
            px.push(7);
        }
        let b = Bitmap { w: image.w, h: image.h, px };
        let (ox, oy) = origin(context);
        self.doc.evs.push((Ev::Img { x: image.x.wrapping_sub(ox), y: image.y.wrapping_sub(oy), b: Rc::new(b) }, context.page_mode.enabled));
    }
    fn render_text(
        &mut self, context: &mut Context, spans: &Vec<TextSpan>, x_offset: u32, max_height: u32, _j: TextJustify,
    ) {
        let (ox, oy) = origin(context);
        for s in spans {
            let st = Rc::new(Style {
                font: font(&s.font),
                bw: s.base_character_width,
                bh: s.base_character_height,
                wm: s.character_width / s.base_character_width.max(1),
                hm: s.character_height / s.base_character_height.max(1),
                bold: s.bold,
                italic: s.italic,
                ul: s.underline,
                strike: s.strikethrough,
                upside: s.upside_down,
                fg: rgb(&s.text_color),
                bg: rgb(&s.background_color),
            });
            let Some(d) = &s.dimensions else { continue };
            for (i, ch) in s.text.chars().enumerate() {
                let c = Cell {
                    ch,
                    x: (d.x + x_offset + i as u32 * s.character_width).wrapping_sub(ox),
                    y: d.y.wrapping_sub(oy),
                    max_h: max_height,
                    st: st.clone(),
                };
                self.doc.evs.push((Ev::Cell(c), context.page_mode.enabled));
            }
        }
    }
    fn device_command(&mut self, _context: &mut Context, _command: &DeviceCommand) {}
    fn end_render(&mut self, context: &mut Context) -> RecDoc {
        self.doc.end_y = context.graphics.render_area.y;
        std::mem::take(&mut self.doc)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Unknown,
    Graphics,
    Child,
}

pub struct Out<T> {
    pub docs: Vec<T>,
    pub errors: Vec<(Kind, String)>,
}

impl<T> Out<T> {
    pub fn count(&self, k: Kind) -> usize {
        self.errors.iter().filter(|e| e.0 == k).count()
    }
    pub fn kinds(&self) -> Vec<Kind> {
        self.errors.iter().map(|e| e.0).collect()
    }
}

fn errors(v: Vec<RenderError>) -> Vec<(Kind, String)> {
    v.iter()
        .map(|e| {
            let s = format!("{:?}", e);
            let k = if s.contains("[UnknownCommand]") {
                Kind::Unknown
            } else if s.contains("[GraphicsError]") {
                Kind::Graphics
            } else {
                Kind::Child
            };
            (k, s)
        })
        .collect()
}

pub fn no_debug() -> DebugProfile {
    DebugProfile { text: false, image: false, page: false, info: false }
}

pub struct Sut {
    rec: Box<dyn OutputRenderer<RecDoc>>,
    img: Box<dyn OutputRenderer<ReceiptImage>>,
    html: Box<dyn OutputRenderer<ReceiptHtml>>,
    busy: bool,
}

fn pic(r: &ReceiptImage) -> Pic {
    Pic {
        w: r.width,
        h: r.height,
        px: r.bytes.chunks_exact(3).map(|c| [c[0], c[1], c[2]]).collect(),
    }
}

impl Sut {
    pub fn new() -> Sut {
        Sut {
            rec: Box::new(Recorder::default()),
            img: Box::new(ImageRenderer::new()),
            html: Box::new(HtmlRenderer::new()),
            busy: false,
        }
    }
    /// Renderers are used again and again, but not after a panic
    fn begin(&mut self) {
        if self.busy {
            *self = Sut::new();
        }
        self.busy = true;
    }
    pub fn record(&mut self, job: &[u8]) -> Out<RecDoc> {
        self.begin();
        self.rec = Box::new(Recorder::default());
        let o = Renderer::new(&mut self.rec, no_debug()).render(&job.to_vec());
        self.busy = false;
        Out { docs: o.output, errors: errors(o.errors) }
    }
    pub fn picture(&mut self, job: &[u8]) -> Out<Pic> {
        self.picture_dbg(job, no_debug())
    }
    pub fn picture_dbg(&mut self, job: &[u8], p: DebugProfile) -> Out<Pic> {
        self.begin();
        let o = Renderer::new(&mut self.img, p).render(&job.to_vec());
        let docs: Vec<Pic> = o.output.iter().map(pic).collect();
        for (d, r) in docs.iter().zip(&o.output) {
            assert_eq!(r.bytes.len(), (d.w * d.h * 3) as usize, "size of the picture data");
        }
        self.busy = false;
        Out { docs, errors: errors(o.errors) }
    }
    pub fn html(&mut self, job: &[u8]) -> Out<String> {
        self.html_dbg(job, no_debug())
    }
    pub fn html_dbg(&mut self, job: &[u8], p: DebugProfile) -> Out<String> {
        self.begin();
        let o = Renderer::new(&mut self.html, p).render(&job.to_vec());
        self.busy = false;
        Out { docs: o.output.into_iter().map(|h| h.content).collect(), errors: errors(o.errors) }
    }
}

/// Through the public function, with renderers of its own
pub fn fresh_picture(job: &[u8]) -> Out<Pic> {
    let o = ImageRenderer::render(&job.to_vec(), None);
    Out { docs: o.output.iter().map(pic).collect(), errors: errors(o.errors) }
}

pub fn fresh_html(job: &[u8]) -> Out<String> {
    let o = HtmlRenderer::render(&job.to_vec(), None);
    Out { docs: o.output.into_iter().map(|h| h.content).collect(), errors: errors(o.errors) }
}

/// A parsed command without the ones that mark begin and end
#[derive(Clone, Debug, PartialEq)]
pub struct Cmd {
    pub name: String,
    pub code: Vec<u8>,
    pub data: Vec<u8>,
    pub unknown: bool,
    pub text: bool,
}

pub fn cmd(c: &Command) -> Cmd {
    Cmd {
        name: c.name.to_string(),
        code: c.commands.to_vec(),
        data: c.data.clone(),
        unknown: c.kind == CommandType::Unknown,
        text: c.kind == CommandType::Text,
    }
}

pub fn parse_raw(job: &[u8]) -> Vec<Command> {
    thermal_parser::parse_esc_pos(&job.to_vec())
}

pub fn parse(job: &[u8]) -> Vec<Cmd> {
    strip(parse_raw(job).iter().map(cmd).collect())
}

/// Without the marks of the begin and the end of the stream
pub fn strip(mut v: Vec<Cmd>) -> Vec<Cmd> {
    if v.first().map_or(false, |c| c.code.is_empty() && c.data.is_empty()) {
        v.remove(0);
    }
    if v.last().map_or(false, |c| c.code.is_empty() && c.data.is_empty()) {
        v.pop();
    }
    v
}
