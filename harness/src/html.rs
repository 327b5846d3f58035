//! Reads the html of a receipt back into what it shows where.
use crate::model::{Rgb};

#[derive(Clone, Debug, PartialEq)]
pub struct Span {
    pub text: Vec<char>,
    pub x: i64,
    /// top of the row it is in
    pub row: i64,
    /// offset in the row
    pub top: i64,
    pub class: Vec<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Img {
    pub x: i64,
    pub y: i64,
    pub w: u32,
    pub h: u32,
    pub rgba: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum HEv {
    Span(Span),
    Rect { x: i64, y: i64, w: i64, h: i64, c: Rgb },
    Img(Img),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Page {
    pub evs: Vec<HEv>,
    pub width: i64,
    pub left: i64,
    pub right: i64,
    /// padding at the bottom
    pub bottom: i64,
    /// where the last row ends
    pub last: i64,
    pub head: String,
    pub tail: String,
}

pub fn unescape(s: &str) -> Result<String, String> {
    let mut o = String::new();
    let mut rest = s;
    while let Some(i) = rest.find(['&', '<', '>']) {
        o.push_str(&rest[..i]);
        if !rest[i..].starts_with('&') {
            return Err(format!("bare {} in text", &rest[i..i + 1]));
        }
        let j = rest[i..].find(';').ok_or("bare & in text")? + i;
        let name = &rest[i + 1..j];
        let c = match name {
            "amp" => '&',
            "lt" => '<',
            "gt" => '>',
            "quot" => '"',
            "apos" => '\'',
            n if n.starts_with("#x") || n.starts_with("#X") => {
                u32::from_str_radix(&n[2..], 16).ok().and_then(char::from_u32).ok_or("bad entity")?
            }
            n if n.starts_with('#') => n[1..].parse().ok().and_then(char::from_u32).ok_or("bad entity")?,
            n => return Err(format!("bare & in text or entity {}", n.chars().take(12).collect::<String>())),
        };
        o.push(c);
        rest = &rest[j + 1..];
    }
    o.push_str(rest);
    Ok(o)
}

struct Tag {
    name: String,
    attrs: Vec<(String, String)>,
}

impl Tag {
    fn attr(&self, k: &str) -> Option<&str> {
        self.attrs.iter().find(|a| a.0 == k).map(|a| a.1.as_str())
    }
    fn num(&self, k: &str) -> Result<i64, String> {
        let v = self.attr(k).ok_or(format!("{} has no {}", self.name, k))?;
        px(v)
    }
    fn style(&self, k: &str) -> Option<String> {
        let s = self.attr("style")?;
        for d in s.split(';') {
            if let Some((a, b)) = d.split_once(':') {
                if a.trim() == k {
                    return Some(b.trim().to_string());
                }
            }
        }
        None
    }
    fn style_px(&self, k: &str) -> Result<i64, String> {
        px(&self.style(k).ok_or(format!("{} has no {}", self.name, k))?)
    }
}

fn px(v: &str) -> Result<i64, String> {
    v.trim().trim_end_matches("px").trim().parse::<i64>().map_err(|_| format!("not a number of pixels: {}", v))
}

/// reads a tag at the start of s, gives it and the rest
fn tag(s: &str) -> Result<(Tag, &str), String> {
    let mut it = s.char_indices().skip(1).peekable();
    let mut name = String::new();
    while let Some((_, c)) = it.peek() {
        if c.is_whitespace() || *c == '>' || (*c == '/' && !name.is_empty()) {
            break;
        }
        name.push(*c);
        it.next();
    }
    let mut attrs = vec![];
    loop {
        match it.peek().copied() {
            None => return Err("tag without end".into()),
            Some((i, '>')) => return Ok((Tag { name, attrs }, &s[i + 1..])),
            Some((_, c)) if c.is_whitespace() || c == '/' => {
                it.next();
            }
            _ => {
                let mut k = String::new();
                while let Some((_, c)) = it.peek() {
                    if *c == '=' || *c == '>' || c.is_whitespace() {
                        break;
                    }
                    k.push(*c);
                    it.next();
                }
                let mut v = String::new();
                if let Some((_, '=')) = it.peek() {
                    it.next();
                    match it.next() {
                        Some((_, q)) if q == '"' || q == '\'' => loop {
                            match it.next() {
                                None => return Err("attribute without end".into()),
                                Some((_, c)) if c == q => break,
                                Some((_, c)) => v.push(c),
                            }
                        },
                        _ => return Err("attribute without quotes".into()),
                    }
                }
                attrs.push((k, unescape(&v)?));
            }
        }
    }
}

fn color(s: &str) -> Result<Rgb, String> {
    let h = s.strip_prefix('#').ok_or(format!("color {}", s))?;
    let n = u32::from_str_radix(h.get(..6).ok_or("color")?, 16).map_err(|_| "color")?;
    if h.len() > 6 && !h[6..].eq_ignore_ascii_case("ff") {
        return Err(format!("color {} is not opaque", s));
    }
    Ok([(n >> 16) as u8, (n >> 8) as u8, n as u8])
}

fn png(src: &str) -> Result<(u32, u32, Vec<u8>), String> {
    use base64::engine::{general_purpose::GeneralPurpose, DecodePaddingMode, GeneralPurposeConfig};
    use base64::Engine;
    let d = src.strip_prefix("data:image/png;base64,").ok_or("image is not an embedded png")?;
    let e = GeneralPurpose::new(
        &base64::alphabet::STANDARD,
        GeneralPurposeConfig::new().with_decode_padding_mode(DecodePaddingMode::Indifferent),
    );
    let bytes = e.decode(d.trim()).map_err(|e| format!("base64: {}", e))?;
    let mut r = png::Decoder::new(bytes.as_slice()).read_info().map_err(|e| format!("png: {}", e))?;
    let mut buf = vec![0; r.output_buffer_size()];
    let info = r.next_frame(&mut buf).map_err(|e| format!("png: {}", e))?;
    buf.truncate(info.buffer_size());
    let rgba = match info.color_type {
        png::ColorType::Rgba => buf,
        png::ColorType::Rgb => buf.chunks_exact(3).flat_map(|c| [c[0], c[1], c[2], 255]).collect(),
        c => return Err(format!("png color type {:?}", c)),
    };
    Ok((info.width, info.height, rgba))
}

pub fn read(html: &str) -> Result<Page, String> {
    let open = "<article>";
    let a = html.find(open).ok_or("no article")? + open.len();
    let z = html.rfind("</article>").ok_or("no end of article")?;
    if z < a {
        return Err("end of article before its start".into());
    }
    let head = &html[..a];
    let sec = head.rfind("<section").ok_or("no section")?;
    let (section, _) = tag(&head[sec..])?;
    let mut p = Page {
        evs: vec![],
        width: section.style_px("width")?,
        left: section.style_px("padding-left")?,
        right: section.style_px("padding-right")?,
        bottom: section.style_px("padding-bottom")?,
        last: 0,
        head: head[..sec].to_string(),
        tail: html[z..].to_string(),
    };
    let mut rest = &html[a..z];
    // end of the last row, top of the open row
    let mut row: Option<(i64, i64)> = None;
    // left, and the size it is cut to
    let mut svg: Option<(i64, i64, i64)> = None;
    while !rest.is_empty() {
        if !rest.starts_with('<') {
            let i = rest.find('<').unwrap_or(rest.len());
            if !rest[..i].trim().is_empty() {
                return Err(format!("text outside of a span: {:?}", &rest[..i]));
            }
            rest = &rest[i..];
            continue;
        }
        let (t, r) = tag(rest)?;
        rest = r;
        match t.name.as_str() {
            "p" if row.is_none() => {
                let m = t.style_px("margin-top")?;
                let h = t.style_px("height")?;
                row = Some((p.last + m, h));
            }
            "/p" => {
                let (y, h) = row.take().ok_or("end of a row that is not open")?;
                p.last = y + h;
            }
            "span" => {
                let (y, _) = row.ok_or("span outside of a row")?;
                let i = rest.find('<').ok_or("span without end")?;
                let text: Vec<char> = unescape(&rest[..i])?.chars().collect();
                rest = rest[i..].strip_prefix("</span>").ok_or_else(|| format!("markup in a span: {:?}", rest[i..].chars().take(30).collect::<String>()))?;
                let class = t.attr("class").unwrap_or("").split_whitespace().map(|s| s.to_string()).collect();
                p.evs.push(HEv::Span(Span { text, x: t.style_px("left")?, row: y, top: t.style_px("top")?, class }));
            }
            "svg" => {
                row.ok_or("svg outside of a row")?;
                // what is outside of a svg is not shown
                let shown = |k: &str| match t.attr(k) {
                    Some(v) if t.attr("viewBox").is_none() && t.style("overflow").is_none() => px(v),
                    _ => Ok(i64::MAX),
                };
                svg = Some((t.style_px("left")?, shown("width")?, shown("height")?));
            }
            "/svg" => svg = None,
            "rect" => {
                let (left, cut_w, cut_h) = svg.ok_or("rect outside of a svg")?;
                let (row_y, _) = row.ok_or("rect outside of a row")?;
                let (x, y) = (t.num("x")?, t.num("y")?);
                p.evs.push(HEv::Rect {
                    x: left + x,
                    y: row_y + y,
                    w: t.num("width")?.min(cut_w - x),
                    h: t.num("height")?.min(cut_h - y),
                    c: color(t.attr("fill").unwrap_or(""))?,
                });
            }
            "img" => {
                let (y, _) = row.ok_or("img outside of a row")?;
                let (w, h, rgba) = png(t.attr("src").ok_or("img without src")?)?;
                if t.num("width")? != w as i64 {
                    return Err("img is not shown at its width".into());
                }
                p.evs.push(HEv::Img(Img { x: t.style_px("left")?, y, w, h, rgba }));
            }
            n => return Err(format!("unexpected tag {}", n)),
        }
    }
    if row.is_some() {
        return Err("row without end".into());
    }
    Ok(p)
}
