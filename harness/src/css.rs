//! What a browser makes of the stylesheet of a receipt: a small cascade for
//! the subset of css that receipts use. None when something else is used.
use std::collections::HashMap;

#[derive(Debug)]
struct Rule {
    /// compounds from the outermost to the element itself
    path: Vec<(Option<String>, Vec<String>)>,
    decl: Vec<(String, String)>,
}

pub struct Sheet {
    rules: Vec<Rule>,
}

/// How a run of text is shown
#[derive(Debug, Clone, PartialEq)]
pub struct Look {
    pub color: String,
    pub background: String,
    pub bold: bool,
    pub italic: bool,
    pub underline: Option<String>,
    pub strike: bool,
    pub pre: bool,
    pub absolute: bool,
    /// x' = x.0 * x + x.1 and the same for y, in widths and heights of the text
    pub x: (f64, f64),
    pub y: (f64, f64),
    /// em
    pub size: f64,
}

fn selector(s: &str) -> Option<Vec<(Option<String>, Vec<String>)>> {
    let mut v = vec![];
    for part in s.split_whitespace() {
        if !part.chars().all(|c| c.is_ascii_alphanumeric() || "._-".contains(c)) {
            return None;
        }
        let mut it = part.split('.');
        let tag = it.next().filter(|t| !t.is_empty()).map(|t| t.to_string());
        v.push((tag, it.map(|c| c.to_string()).collect()));
    }
    Some(v)
}

impl Sheet {
    /// Of the style element of a document
    pub fn read(html: &str) -> Option<Sheet> {
        let a = html.find("<style>")? + 7;
        let z = html[a..].find("</style>")? + a;
        if html[z..].contains("<style") {
            return None;
        }
        let mut css = String::new();
        let mut rest = &html[a..z];
        while let Some(i) = rest.find("/*") {
            css.push_str(&rest[..i]);
            rest = &rest[i + rest[i..].find("*/")? + 2..];
        }
        css.push_str(rest);
        let mut rules = vec![];
        let mut rest = css.as_str();
        while let Some(i) = rest.find('{') {
            let sel = rest[..i].trim();
            if sel.starts_with('@') {
                if !sel.starts_with("@media print") {
                    return None;
                }
                let mut depth = 0;
                let end = rest[i..].find(|c| {
                    depth += (c == '{') as i32 - (c == '}') as i32;
                    depth == 0
                })?;
                rest = &rest[i + end + 1..];
                continue;
            }
            let end = rest[i..].find('}')? + i;
            let mut decl = vec![];
            for d in rest[i + 1..end].split(';').filter(|d| !d.trim().is_empty()) {
                let (k, v) = d.split_once(':')?;
                if v.contains('!') || v.contains('"') {
                    return None;
                }
                decl.push((k.trim().to_string(), v.split_whitespace().collect::<Vec<_>>().join(" ")));
            }
            for s in sel.split(',') {
                rules.push(Rule { path: selector(s)?, decl: decl.clone() });
            }
            rest = &rest[end + 1..];
        }
        Some(Sheet { rules })
    }

    /// The declarations that hold for the last of these elements
    fn cascade(&self, path: &[(&str, &[String])]) -> HashMap<String, String> {
        let hit = |c: &(Option<String>, Vec<String>), e: &(&str, &[String])| {
            c.0.as_deref().is_none_or(|t| t == e.0) && c.1.iter().all(|x| e.1.contains(x))
        };
        let mut found: Vec<((usize, usize), &Rule)> = vec![];
        for r in &self.rules {
            let Some((own, outer)) = r.path.split_last() else { continue };
            let Some((e, parents)) = path.split_last() else { continue };
            if !hit(own, e) {
                continue;
            }
            // outermost first, in order
            let mut at = parents.iter();
            if outer.iter().all(|c| at.any(|p| hit(c, p))) {
                let classes = r.path.iter().map(|c| c.1.len()).sum();
                let tags = r.path.iter().filter(|c| c.0.is_some()).count();
                found.push(((classes, tags), r));
            }
        }
        found.sort_by_key(|f| f.0);
        let mut m = HashMap::new();
        for (_, r) in found {
            for (k, v) in &r.decl {
                if k == "text-decoration" {
                    m.remove("text-decoration-line");
                    m.remove("text-decoration-thickness");
                }
                m.insert(k.clone(), v.clone());
            }
        }
        m
    }

    pub fn look(&self, class: &[String]) -> Option<Look> {
        let none: &[String] = &[];
        let tags = ["html", "body", "main", "section", "article", "p", "span"];
        let path: Vec<(&str, &[String])> = tags.iter().map(|t| (*t, if *t == "span" { class } else { none })).collect();
        let mut inherited: HashMap<String, String> = HashMap::new();
        let mut own = HashMap::new();
        for n in 1..=path.len() {
            own = self.cascade(&path[..n]);
            for k in ["color", "font-weight", "font-style", "white-space"] {
                if let Some(v) = own.get(k) {
                    if v != "inherit" {
                        inherited.insert(k.into(), v.clone());
                    }
                }
            }
            for (k, v) in &own {
                if k.starts_with("--") {
                    inherited.insert(k.clone(), v.clone());
                }
            }
        }
        for k in ["font", "all", "scale", "rotate", "translate", "zoom", "background", "filter", "visibility", "opacity"] {
            if own.contains_key(k) {
                return None;
            }
        }
        if own.get("display").map(|s| s.as_str()) == Some("none") {
            return None;
        }
        let text = |k: &str| inherited.get(k).cloned().unwrap_or_default();
        let deco = own.get("text-decoration").cloned().unwrap_or_default();
        let line = own.get("text-decoration-line").cloned().unwrap_or_else(|| deco.clone());
        let thick = own.get("text-decoration-thickness").cloned().unwrap_or_else(|| {
            deco.split(' ').find(|w| w.starts_with(|c: char| c.is_ascii_digit())).unwrap_or("auto").to_string()
        });
        let has = |w: &str| line.split(' ').any(|x| x == w);
        let (x, y) = self.transform(&own, &inherited)?;
        let weight = text("font-weight");
        Some(Look {
            color: text("color").to_uppercase(),
            background: own.get("background-color").cloned().unwrap_or("transparent".into()).to_uppercase(),
            bold: weight == "bold" || weight == "bolder" || weight.parse::<u32>().is_ok_and(|n| n >= 600),
            italic: matches!(text("font-style").as_str(), "italic" | "oblique"),
            underline: has("underline").then_some(thick),
            strike: has("line-through"),
            pre: matches!(text("white-space").as_str(), "pre" | "pre-wrap" | "break-spaces"),
            absolute: own.get("position").map(|s| s.as_str()) == Some("absolute"),
            x,
            y,
            size: match own.get("font-size") {
                None => 1.0,
                Some(v) => match (v.strip_suffix("em"), v.strip_suffix('%')) {
                    (Some(n), _) => n.parse().ok()?,
                    (_, Some(n)) => n.parse::<f64>().ok()? / 100.0,
                    _ => return None,
                },
            },
        })
    }

    fn transform(&self, own: &HashMap<String, String>, vars: &HashMap<String, String>) -> Option<((f64, f64), (f64, f64))> {
        let (mut x, mut y) = ((1.0, 0.0), (1.0, 0.0));
        let Some(t) = own.get("transform") else { return Some((x, y)) };
        let t = substitute(t, vars)?;
        if t.trim() == "none" {
            return Some((x, y));
        }
        // point -> last function -> ... -> first function
        let mut fs = vec![];
        let mut rest = t.trim();
        while !rest.is_empty() {
            let i = rest.find('(')?;
            let j = rest.find(')')?;
            let args: Vec<&str> = rest[i + 1..j].split([',', ' ']).map(|a| a.trim()).filter(|a| !a.is_empty()).collect();
            fs.push((rest[..i].trim(), args));
            rest = rest[j + 1..].trim();
        }
        let num = |s: &str| s.parse::<f64>().ok();
        let part = |s: &str| {
            if let Some(p) = s.strip_suffix('%') {
                return p.trim().parse::<f64>().ok().map(|p| p / 100.0);
            }
            (s.trim_end_matches("px") == "0").then_some(0.0)
        };
        for (f, a) in fs.iter().rev() {
            let (sx, sy, tx, ty) = match (*f, a.as_slice()) {
                ("scale", [n]) => (num(n)?, num(n)?, 0.0, 0.0),
                ("scale", [n, m]) => (num(n)?, num(m)?, 0.0, 0.0),
                ("scaleX", [n]) => (num(n)?, 1.0, 0.0, 0.0),
                ("scaleY", [n]) => (1.0, num(n)?, 0.0, 0.0),
                ("translate", [n, m]) => (1.0, 1.0, part(n)?, part(m)?),
                ("translateX", [n]) => (1.0, 1.0, part(n)?, 0.0),
                ("translateY", [n]) => (1.0, 1.0, 0.0, part(n)?),
                _ => return None,
            };
            x = (x.0 * sx, x.1 * sx + tx);
            y = (y.0 * sy, y.1 * sy + ty);
        }
        let (mut ox, mut oy) = (0.5, 0.5);
        if let Some(o) = own.get("transform-origin") {
            let w: Vec<&str> = o.split(' ').collect();
            for (i, k) in w.iter().enumerate() {
                match *k {
                    "left" => ox = 0.0,
                    "right" => ox = 1.0,
                    "top" => oy = 0.0,
                    "bottom" => oy = 1.0,
                    "center" => {}
                    k if i == 0 => ox = part(k)?,
                    k => oy = part(k)?,
                }
            }
        }
        x.1 += ox - x.0 * ox;
        y.1 += oy - y.0 * oy;
        Some((x, y))
    }
}

/// Puts in the custom properties
fn substitute(v: &str, vars: &HashMap<String, String>) -> Option<String> {
    let mut v = v.to_string();
    for _ in 0..20 {
        let Some(i) = v.find("var(") else { return Some(v) };
        let mut depth = 0;
        let end = v[i..].find(|c| {
            depth += (c == '(') as i32 - (c == ')') as i32;
            c == ')' && depth == 0
        })? + i;
        let inner = v[i + 4..end].to_string();
        let (name, other) = match inner.split_once(',') {
            Some((n, o)) => (n.trim().to_string(), Some(o.trim().to_string())),
            None => (inner.trim().to_string(), None),
        };
        let new = vars.get(&name).cloned().or(other)?;
        v.replace_range(i..=end, &new);
    }
    None
}
