//! C19: the drawing canvas, against a grid of pixels
use std::collections::VecDeque;
use thermal_parser::context::Rotation;
use thermal_parser::graphics::{Image, ImageFlow, Rectangle, RGBA};
use thermal_renderer::image_renderer::thermal_image::ThermalImage;
use vlib::engine::*;

type C = [u8; 4];

struct Env {
    t: ThermalImage,
}

fn new_env() -> Env {
    Env { t: ThermalImage::new(0) }
}

fn rgba(c: C) -> RGBA {
    RGBA { r: c[0], g: c[1], b: c[2], a: c[3] }
}
fn of(c: &RGBA) -> C {
    [c.r, c.g, c.b, c.a]
}

/// Rows of pixels
#[derive(Clone, Debug, PartialEq)]
struct Grid {
    w: u32,
    rows: VecDeque<Vec<C>>,
    auto: bool,
    paper: C,
    errors: usize,
    /// Errors that may be reported as well, of operations on no pixels
    maybe: usize,
}

impl Grid {
    fn h(&self) -> u32 {
        self.rows.len() as u32
    }
    fn tall(&mut self, h: u32) {
        if self.w > 0 {
            while self.h() < h {
                self.rows.push_back(vec![self.paper; self.w as usize]);
            }
        }
    }
    fn from(&mut self, w: u32, h: u32, f: impl Fn(u32, u32) -> C) {
        self.rows = (0..h).map(|y| (0..w).map(|x| f(x, y)).collect()).collect();
        self.w = w;
        if w == 0 {
            self.rows.clear();
        }
    }
    fn quarter(&mut self) {
        let o = self.clone();
        self.from(o.h(), o.w, |x, y| o.rows[(o.h() - 1 - x) as usize][y as usize]);
    }
    fn turn(&mut self, n: u32) {
        if self.rows.is_empty() {
            // a canvas without rows has no width once it is turned sideways
            if n % 2 == 1 {
                self.w = 0;
            }
            return;
        }
        for _ in 0..n {
            self.quarter();
        }
    }
    fn put(&mut self, x: u32, y: u32, w: u32, h: u32, px: &[C], multiply: bool) -> bool {
        if (w * h) as usize != px.len() || x >= self.w || (!self.auto && y >= self.h()) {
            if px.is_empty() {
                self.maybe += 1;
            } else {
                self.errors += 1;
            }
            return false;
        }
        if self.auto {
            self.tall(y + h);
        }
        for j in 0..h {
            for i in 0..w {
                let (tx, ty) = (x + i, y + j);
                if tx >= self.w || ty >= self.h() {
                    continue;
                }
                let d = &mut self.rows[ty as usize][tx as usize];
                let s = px[(j * w + i) as usize];
                let a = s[3] as f64 / 255.0;
                if s[3] == 0 {
                    continue;
                }
                for k in 0..3 {
                    let (p, q) = (d[k] as f64, s[k] as f64);
                    d[k] = if multiply { p * q / 255.0 * a } else { q * a + p * (1.0 - a) }.round() as u8;
                }
            }
        }
        true
    }
    fn flip(&mut self, x: u32, y: u32, w: u32, h: u32) {
        if w * h == 0 {
            self.maybe += 1;
        }
        if x + w > self.w || (!self.auto && y + h > self.h()) {
            return;
        }
        self.tall(y + h);
        for j in 0..h / 2 {
            for i in 0..w {
                let (a, b) = ((y + j) as usize, (y + h - 1 - j) as usize);
                let c = (x + i) as usize;
                let t = self.rows[a][c];
                self.rows[a][c] = self.rows[b][c];
                self.rows[b][c] = t;
            }
        }
    }
}

fn g_color(s: &mut Src, alpha: bool) -> C {
    let v = match s.below(6) {
        0 => [0, 0, 0],
        1 => [255, 255, 255],
        2 => [158, 22, 22],
        _ => [s.byte(), s.byte(), s.byte()],
    };
    let a = if !alpha { 255 } else { s.one(&[255u8, 255, 0, 128, 1]) };
    [v[0], v[1], v[2], a]
}

fn g_pixels(s: &mut Src, n: usize, alpha: bool) -> Vec<C> {
    let seed = s.below(1 << 30);
    let some: Vec<C> = (0..3).map(|_| g_color(s, alpha)).collect();
    let mut x = seed | 1;
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            match x >> 20 & 3 {
                3 => [(x >> 8) as u8, (x >> 24) as u8, (x >> 40) as u8, if alpha && x >> 50 & 1 == 1 { 0 } else { 255 }],
                k => some[k as usize],
            }
        })
        .collect()
}

fn compare(t: &mut ThermalImage, g: &Grid, after: &str) -> Res {
    let (w, h, px) = t.copy();
    let gh = g.h();
    if w != g.w || h != gh || px.len() != (w * h) as usize {
        return Err(format!("after {}: canvas is {}x{} with {} pixels, expected {}x{}", after, w, h, px.len(), g.w, gh));
    }
    for y in 0..h {
        for x in 0..w {
            let a = of(&px[(y * w + x) as usize]);
            let b = g.rows[y as usize][x as usize];
            if (0..3).any(|k| a[k].abs_diff(b[k]) > 1) {
                return Err(format!("after {}: pixel {},{} of {}x{} is {:?}, expected {:?}", after, x, y, w, h, a, b));
            }
        }
    }
    if t.errors.len() < g.errors || t.errors.len() > g.errors + g.maybe {
        return Err(format!("after {}: {} errors {:?}, expected {}", after, t.errors.len(), t.errors, g.errors));
    }
    Ok(())
}

fn start(e: &mut Env, s: &mut Src, max: u64, max_h: u64) -> Grid {
    let w = if s.chance(1, 12) { 0 } else { 1 + s.below(max) as u32 };
    let paper = if s.chance(3, 4) { [255, 255, 255, 255] } else { g_color(s, false) };
    e.t.set_width(w);
    e.t.errors.clear();
    e.t.paper_color = rgba(paper);
    e.t.auto_grow = !s.chance(1, 3);
    let mut g = Grid { w, rows: VecDeque::new(), auto: e.t.auto_grow, paper, errors: 0, maybe: 0 };
    let h = s.below(max_h) as u32;
    e.t.expand_to_height(h);
    g.tall(h);
    g
}

fn fill(e: &mut Env, s: &mut Src, g: &mut Grid) {
    let (w, h) = (g.w, g.h());
    if w * h > 0 {
        let px = g_pixels(s, (w * h) as usize, false);
        e.t.put_pixels(0, 0, w, h, px.iter().map(|c| rgba(*c)).collect(), false, false);
        g.put(0, 0, w, h, &px, false);
    }
}

/// Canvases of the size of paper
fn large(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let max_w = s.one(&[1u64, 8, 100, 300, 649, 700]);
    let max_h = s.one(&[40u64, 300, 1000, 4100, 9000]);
    let r = sequence(e, s, o, &Limits { start: (max_w, max_h), draw: (max_w, max_h), grow: (max_w, max_h), list: 150_000, area: 2_500_000, ops: 8 });
    // what is left of it would make later cases slow
    e.t = ThermalImage::new(0);
    r
}

struct Limits {
    start: (u64, u64),
    draw: (u64, u64),
    /// Added at once
    grow: (u64, u64),
    /// Pixels of a list
    list: u64,
    area: u64,
    ops: usize,
}

fn ops(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    sequence(e, s, o, &Limits { start: (20, 12), draw: (14, 10), grow: (4, 6), list: 1000, area: u64::MAX, ops: 14 })
}

fn sequence(e: &mut Env, s: &mut Src, o: &mut Obs, l: &Limits) -> Res {
    let mut g = start(e, s, l.start.0, l.start.1);
    let first = format!("{}x{} {}", g.w, g.h(), if g.auto { "growing" } else { "fixed" });
    let mut log: Vec<String> = vec![first];
    let n = 1 + s.n(l.ops);
    let mut drawn = false;
    let r = (|| -> Res {
        for _ in 0..n {
            let (cw, ch) = (g.w as u64 + 4, g.h() as u64 + 4);
            let (x, y) = (s.below(cw) as u32, s.below(ch) as u32);
            let wide = if l.draw.0 > 30 && s.chance(1, 3) { 30 } else { l.draw.0 };
            let w = s.below(cw.min(wide)) as u32;
            // over the right edge
            let x = if s.chance(1, 8) { g.w.saturating_sub(w / 2) } else { x };
            let h = s.below(l.draw.1.min(l.list / (w as u64).max(1)).max(1)) as u32;
            // before it becomes too much
            if (g.w as u64 + l.grow.0) * (g.h() as u64 + l.grow.1) > l.area {
                break;
            }
            let name = match s.below(16) {
                0..=3 => {
                    let px = g_pixels(s, (w * h) as usize, true);
                    let m = s.chance(1, 2);
                    let wrong = s.chance(1, 16);
                    let mut list: Vec<RGBA> = px.iter().map(|c| rgba(*c)).collect();
                    let mut px = px;
                    if wrong {
                        list.push(rgba([0; 4]));
                        px.push([0; 4]);
                    }
                    let a = e.t.put_pixels(x, y, w, h, list, false, m);
                    let b = g.put(x, y, w, h, &px, m);
                    if a != b && !px.is_empty() {
                        return Err(format!("put at {},{} {}x{} gives {}, expected {}", x, y, w, h, a, b));
                    }
                    drawn |= b && w * h > 0;
                    format!("put {},{} {}x{} {}", x, y, w, h, if m { "multiplied" } else { "" })
                }
                4 | 5 => {
                    let c = g_color(s, true);
                    let m = s.chance(1, 2);
                    if s.chance(1, 2) {
                        e.t.draw_rect(x, y, w, h, &rgba(c), m);
                        g.put(x, y, w, h, &vec![c; (w * h) as usize], m);
                    } else {
                        e.t.put_rect(&Rectangle { x, y, w, h }, &rgba(c));
                        g.put(x, y, w, h, &vec![c; (w * h) as usize], true);
                    }
                    drawn |= w * h > 0;
                    format!("rectangle {},{} {}x{}", x, y, w, h)
                }
                6 => {
                    let px = g_pixels(s, (w * h) as usize, true);
                    let up = s.chance(1, 2);
                    e.t.put_render_img(&Image {
                        pixels: px.iter().map(|c| rgba(*c)).collect(),
                        x,
                        y,
                        w,
                        h,
                        flow: ImageFlow::Block,
                        upside_down: up,
                    });
                    g.put(x, y, w, h, &px, true);
                    if up {
                        g.flip(x, y, w, h);
                    }
                    drawn |= w * h > 0;
                    format!("image {},{} {}x{} {}", x, y, w, h, up)
                }
                7 | 8 => {
                    e.t.flip_pixels(x, y, w, h);
                    g.flip(x, y, w, h);
                    format!("flip {},{} {}x{}", x, y, w, h)
                }
                9 => {
                    let k = s.below(4) as u32;
                    match k {
                        0 => e.t.rotate(&Rotation::R0),
                        1 => e.t.rotate(&Rotation::R90),
                        2 => e.t.rotate(&Rotation::R180),
                        _ => e.t.rotate(&Rotation::R270),
                    }
                    g.turn(k);
                    format!("turn {}", k)
                }
                10 => {
                    let k = 1 + s.below(3) as u32;
                    match k {
                        1 => e.t.rotate_90(),
                        2 => e.t.rotate_180(),
                        _ => e.t.rotate_270(),
                    }
                    g.turn(k);
                    format!("rotate {}", k)
                }
                11 => {
                    let h = s.below(ch + l.grow.1) as u32;
                    e.t.expand_to_height(h);
                    g.tall(h);
                    format!("height {}", h)
                }
                12 => {
                    let h = s.below(l.grow.1 - 1) as u32;
                    e.t.add_top_margin(h);
                    if g.w > 0 {
                        for _ in 0..h {
                            g.rows.push_front(vec![g.paper; g.w as usize]);
                        }
                    }
                    format!("margin {}", h)
                }
                13 => {
                    let w = s.below(cw + l.grow.0) as u32;
                    e.t.expand_right(w);
                    let p = g.paper;
                    if w > g.w {
                        for r in g.rows.iter_mut() {
                            r.resize(w as usize, p);
                        }
                        g.w = w;
                    }
                    format!("right {}", w)
                }
                14 => {
                    let w = s.below(cw + l.grow.0) as u32;
                    e.t.expand_to_width(w);
                    let p = g.paper;
                    if w > g.w {
                        let left = ((w - g.w) / 2) as usize;
                        for r in g.rows.iter_mut() {
                            let mut n = vec![p; left];
                            n.extend(r.iter());
                            n.resize(w as usize, p);
                            *r = n;
                        }
                        g.w = w;
                    }
                    format!("width {}", w)
                }
                _ => match s.below(4) {
                    0 => {
                        e.t.empty();
                        g.rows.clear();
                        "empty".into()
                    }
                    1 => {
                        e.t.reset();
                        g.rows.clear();
                        "reset".into()
                    }
                    2 => {
                        e.t.auto_grow = !e.t.auto_grow;
                        g.auto = e.t.auto_grow;
                        format!("growing {}", g.auto)
                    }
                    _ => {
                        let (w, h, px) = e.t.consume_rgb_u8();
                        let want: Vec<u8> = g.rows.iter().flatten().flat_map(|c| [c[0], c[1], c[2]]).collect();
                        if (w, h) != (g.w, g.h()) || px.len() != want.len() || px.iter().zip(&want).any(|(a, b)| a.abs_diff(*b) > 1) {
                            return Err(format!("taken {}x{} ({} bytes), expected {}x{}", w, h, px.len(), g.w, g.h()));
                        }
                        g.rows.clear();
                        g.w = s.below(20) as u32;
                        e.t.set_width(g.w);
                        format!("taken, new width {}", g.w)
                    }
                },
            };
            log.push(name.clone());
            compare(&mut e.t, &g, &name)?;
        }
        Ok(())
    })();
    o.nontrivial = drawn && log.len() > 2;
    o.desc(|| log.join(", "));
    r
}

/// Operations that undo each other
fn undo(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let mut g = start(e, s, 30, 12);
    fill(e, s, &mut g);
    let before = g.clone();
    o.nontrivial = g.w > 1 && g.h() > 1;
    let t = &mut e.t;
    let exact = |t: &mut ThermalImage| -> Vec<C> { t.copy().2.iter().map(of).collect() };
    let first = exact(t);
    let kind = s.below(6);
    o.desc(|| format!("{}x{} kind {}", before.w, before.h(), kind));
    if before.h() == 0 || before.w == 0 {
        return Ok(());
    }
    match kind {
        0 => (0..4).for_each(|_| t.rotate_90()),
        1 => (0..4).for_each(|_| t.rotate_270()),
        2 => {
            t.rotate_180();
            t.rotate_180()
        }
        3 => {
            t.rotate_90();
            t.rotate_270()
        }
        4 => {
            t.rotate_90();
            t.rotate_90();
            t.rotate_180()
        }
        _ => {
            let (x, y) = (s.below(before.w as u64) as u32, s.below(before.h() as u64) as u32);
            let w = s.below((before.w - x) as u64 + 1) as u32;
            let h = s.below((before.h() - y) as u64 + 1) as u32;
            t.flip_pixels(x, y, w, h);
            t.flip_pixels(x, y, w, h);
        }
    }
    if t.width != before.w || exact(t) != first {
        return Err(format!("operations of kind {} do not give back the canvas", kind));
    }
    Ok(())
}

/// Cropping, scaling and frames of pixel lists
fn lists(_e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let (w, h) = (s.below(20) as u32, s.below(20) as u32);
    let px = g_pixels(s, (w * h) as usize, true);
    let list: Vec<RGBA> = px.iter().map(|c| rgba(*c)).collect();
    o.nontrivial = w > 1 && h > 1;
    match s.below(3) {
        0 => {
            let (mw, mh) = (s.below(24) as u32, s.below(24) as u32);
            let crop = s.chance(1, 2);
            o.desc(|| format!("crop {}x{} to {}x{} {}", w, h, mw, mh, crop));
            let (nw, nh, got) = ThermalImage::crop_pixels(&list, w, h, mw, mh, crop);
            let (ww, wh) = (w.min(mw), if crop { h.min(mh) } else { h });
            if (nw, nh) != (ww, wh) || got.len() != (ww * wh) as usize {
                return Err(format!("cropped to {}x{}, expected {}x{}", nw, nh, ww, wh));
            }
            for y in 0..wh {
                for x in 0..ww {
                    if of(&got[(y * ww + x) as usize]) != px[(y * w + x) as usize] {
                        return Err(format!("pixel {},{} changed", x, y));
                    }
                }
            }
        }
        1 => {
            if w == 0 || h == 0 {
                return Ok(());
            }
            // by whole numbers, in both directions
            let (fx, fy) = (1 + s.below(4) as u32, 1 + s.below(4) as u32);
            o.desc(|| format!("scale {}x{} by {},{}", w, h, fx, fy));
            let up = ThermalImage::scale_bitmap(&list, w, h, w * fx, h * fy);
            for y in 0..h * fy {
                for x in 0..w * fx {
                    if of(&up[(y * w * fx + x) as usize]) != px[(y / fy * w + x / fx) as usize] {
                        return Err(format!("scaled pixel {},{}", x, y));
                    }
                }
            }
            let down = ThermalImage::scale_bitmap(&up, w * fx, h * fy, w, h);
            if down.iter().map(of).collect::<Vec<C>>() != px {
                return Err("scaled up and down again it is another picture".into());
            }
        }
        _ => {
            let c = g_color(s, false);
            o.desc(|| format!("frame of {}x{}", w, h));
            let mut v = list.clone();
            ThermalImage::draw_border(&mut v, w, h, &rgba(c));
            for y in 0..h {
                for x in 0..w {
                    let edge = x == 0 || y == 0 || x == w - 1 || y == h - 1;
                    let want = if edge { [c[0], c[1], c[2]] } else { let p = px[(y * w + x) as usize]; [p[0], p[1], p[2]] };
                    let g = of(&v[(y * w + x) as usize]);
                    if g[..3] != want {
                        return Err(format!("pixel {},{} of the frame of {}x{}", x, y, w, h));
                    }
                }
            }
        }
    }
    Ok(())
}

fn main() {
    let sub = |name, f, quick, thorough| Sub { name, f, quick, thorough, exhaustive: false };
    vlib::runner::main(
        vec![Prop {
            id: "C19",
            rule: "a case is non-trivial when something is drawn among at least two operations, or the canvas is larger than one pixel; distinct by the choices made",
            assumptions: &["a difference of 1 of 255 per colour is taken as rounding", "alpha of the canvas itself is not looked at"],
            subs: vec![sub("operations", ops, 1_100_000, 8_000_000), sub("large", large, 6_000, 200_000), sub("undo", undo, 600_000, 2_000_000), sub("lists", lists, 900_000, 3_000_000)],
        }],
        new_env,
    )
}
