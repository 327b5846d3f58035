//! The checks, one list of sub checks per property.
use crate::canvas::{diff, paint, Fonts};
use crate::cmp::{self, Aspects};
use crate::engine::*;
use crate::items::*;
use crate::model::*;
use crate::sut::{Kind, Out, Sut};
use crate::tables::Tables;

pub mod codes;
pub mod debug;
pub mod html;
pub mod images;
pub mod jobs;
pub mod page;
pub mod parse;
pub mod text;

pub struct Env {
    pub tables: Tables,
    pub sut: Sut,
    pub fonts: Fonts,
}

pub fn new_env() -> Env {
    Env { tables: Tables::load(), sut: Sut::new(), fonts: Fonts::load() }
}

/// What a job should give
pub struct Want {
    pub docs: Vec<Doc>,
    pub errors: Vec<ErrKind>,
    pub overflow: bool,
    pub above: bool,
}

pub fn want(tables: &Tables, items: &[Item]) -> Want {
    let m = Model::run(tables, items);
    Want { docs: m.docs, errors: m.errors, overflow: m.overflow, above: m.above }
}

/// Notes the job and gives its bytes
pub fn send(o: &mut Obs, items: &[Item]) -> Vec<u8> {
    let job = encode(items);
    o.job(&job);
    o.desc(|| show(items));
    job
}

pub fn same_errors<T>(want: &[ErrKind], got: &Out<T>) -> Res {
    let w: Vec<Kind> = want
        .iter()
        .map(|e| match e {
            ErrKind::Unknown => Kind::Unknown,
            ErrKind::Graphics => Kind::Graphics,
        })
        .collect();
    let g: Vec<Kind> = got.kinds().into_iter().filter(|k| *k != Kind::Child).collect();
    if w != g {
        return Err(format!("reported {:?}, expected {:?}", got.errors, w));
    }
    Ok(())
}

/// What the renderer asks its output to draw is what the model draws
pub fn layout(e: &mut Env, o: &mut Obs, items: &[Item], k: &Aspects) -> Result<(Want, Vec<u8>), String> {
    let job = send(o, items);
    let w = want(&e.tables, items);
    let r = e.sut.record(&job);
    if w.above {
        o.label("above the area");
        return Ok((w, job));
    }
    cmp::docs(&w.docs, &r.docs, k)?;
    Ok((w, job))
}

pub fn height(w: &Want) -> u32 {
    let mut m = 0;
    for d in &w.docs {
        m = m.max(d.end_y);
        for op in &d.ops {
            m = m.max(match op {
                Op::Draw(Ev::Cell(c)) => c.y + c.max_h,
                Op::Draw(Ev::Rect { y, h, .. }) => y + h,
                Op::Draw(Ev::Img { y, b, .. }) => y + b.h,
                Op::PageGrow { h, .. } => *h,
                Op::PagePrint { y, .. } => *y,
                _ => 0,
            });
        }
    }
    m
}

pub const TOL: u8 = 3;

/// The picture of a job is what the model paints
pub fn picture(e: &mut Env, w: &Want, job: &[u8]) -> Res {
    let got = e.sut.picture(job);
    if got.docs.len() != w.docs.len() {
        return Err(format!("{} pictures instead of {}", got.docs.len(), w.docs.len()));
    }
    for (i, (d, g)) in w.docs.iter().zip(&got.docs).enumerate() {
        let p = paint(&mut e.fonts, d);
        diff(&p.paper, g, TOL).map_err(|m| format!("picture {}: {}", i, m))?;
    }
    same_errors(&w.errors, &got)
}

pub fn sub(name: &'static str, f: CheckFn<Env>, quick: u64, thorough: u64) -> Sub<Env> {
    Sub { name, f, quick: (quick * 5 / 2).min(thorough), thorough, exhaustive: false }
}

/// Checks whose cases take long
pub fn slow(name: &'static str, f: CheckFn<Env>, quick: u64, thorough: u64) -> Sub<Env> {
    Sub { name, f, quick: (quick * 3 / 2).min(thorough), thorough, exhaustive: false }
}

pub fn all(name: &'static str, f: CheckFn<Env>, n: u64) -> Sub<Env> {
    Sub { name, f, quick: n, thorough: n, exhaustive: true }
}

pub fn props() -> Vec<Prop<Env>> {
    let mut v = parse::props();
    v.extend(text::props());
    v.extend(codes::props());
    v.extend(images::props());
    v.extend(page::props());
    v.extend(jobs::props());
    v.extend(html::props());
    v.extend(debug::props());
    v.sort_by_key(|p| p.id);
    v
}
