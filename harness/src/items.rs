//! The ESC/POS commands the generators are made of, and their encoding as
//! their documentation gives it.

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Text(Vec<u8>),
    Lf,
    Cr,
    Ht,
    Ff,
    PageFf,
    Cancel,
    Init,
    PrintMode(u8),
    Font(u8),
    Emphasis(u8),
    Strike(u8),
    Underline(u8),
    Upside(u8),
    Italic(u8),
    Table(u8),
    Charset(u8),
    AltColor(u8),
    Invert(u8),
    Smooth(u8),
    CharSize(u8),
    /// fn, parameters
    Effects(u8, Vec<u8>),
    /// length, index
    /// columns, ended by NUL unless the last one ends it
    Tab(Vec<u8>),
    DefaultSpacing,
    Spacing(u8),
    BarHeight(u8),
    BarWidth(u8),
    BarFont(u8),
    Hri(u8),
    Motion(u8, u8),
    AbsX(u16),
    AbsY(u16),
    RelY(i16),
    StdMode,
    GsG(Vec<u8>),
    PageMode,
    /// x y w h
    Area(u16, u16, u16, u16),
    Dir(u8),
    Just(u8),
    FeedLines(u8),
    ReverseLines(u8),
    FeedDots(u8),
    Cut(u8, u8),
    Periph(u8),
    Pulse(u8, u8, u8),
    /// 3, 4 or 5 after ESC c
    Sensor(u8, u8),
    PrinterId(u8),
    /// m, fn, data
    Response(u8, u8, Vec<u8>),
    /// type, data
    Barcode(u8, Vec<u8>),
    /// m, columns, data
    BitImage(u8, u16, Vec<u8>),
    /// m, bytes wide, rows, data
    Raster(u8, u16, u16, Vec<u8>),
    /// cn, fn, data
    Code2d(u8, u8, Vec<u8>),
    /// large, m, fn, data
    Gfx(bool, u8, u8, Vec<u8>),
    /// anything else
    Raw(Vec<u8>),
}

pub const HT: u8 = 9;
pub const LF: u8 = 10;
pub const FF: u8 = 12;
pub const CR: u8 = 13;
pub const CAN: u8 = 24;
pub const ESC: u8 = 27;
pub const GS: u8 = 29;

/// Bytes that can't be part of a run of text because they start commands
pub fn is_text_byte(b: u8) -> bool {
    ![9, 10, 12, 13, 16, 24, 27, 28, 29].contains(&b)
}

pub fn cut_has_length(m: u8) -> bool {
    ![0, 1, 48, 49].contains(&m)
}

impl Item {
    pub fn put(&self, o: &mut Vec<u8>) {
        use Item::*;
        let mut esc = |c: u8, rest: &[u8]| {
            o.push(ESC);
            o.push(c);
            o.extend_from_slice(rest);
        };
        match self {
            Init => esc(b'@', &[]),
            PrintMode(n) => esc(b'!', &[*n]),
            Font(n) => esc(b'M', &[*n]),
            Emphasis(n) => esc(b'E', &[*n]),
            Strike(n) => esc(b'G', &[*n]),
            Underline(n) => esc(b'-', &[*n]),
            Upside(n) => esc(b'{', &[*n]),
            Italic(n) => esc(b'4', &[*n]),
            Table(n) => esc(b't', &[*n]),
            Charset(n) => esc(b'R', &[*n]),
            AltColor(n) => esc(b'r', &[*n]),
            Tab(v) => esc(b'D', v),
            DefaultSpacing => esc(b'2', &[]),
            Spacing(n) => esc(b'3', &[*n]),
            AbsX(n) => esc(b'$', &n.to_le_bytes()),
            StdMode => esc(b'S', &[]),
            PageMode => esc(b'L', &[]),
            PageFf => esc(FF, &[]),
            Area(x, y, w, h) => {
                let mut d = vec![];
                for v in [x, y, w, h] {
                    d.extend_from_slice(&v.to_le_bytes());
                }
                esc(b'W', &d)
            }
            Dir(n) => esc(b'T', &[*n]),
            Just(n) => esc(b'a', &[*n]),
            FeedLines(n) => esc(b'd', &[*n]),
            ReverseLines(n) => esc(b'e', &[*n]),
            FeedDots(n) => esc(b'J', &[*n]),
            Periph(n) => esc(b'=', &[*n]),
            Pulse(a, b, c) => esc(b'p', &[*a, *b, *c]),
            Sensor(k, n) => esc(b'c', &[b'0' + *k, *n]),
            BitImage(m, w, data) => {
                esc(b'*', &[*m, *w as u8, (*w >> 8) as u8]);
                o.extend_from_slice(data);
            }
            _ => self.put_gs(o),
        }
    }

    fn put_gs(&self, o: &mut Vec<u8>) {
        use Item::*;
        if let Text(t) | Raw(t) = self {
            o.extend_from_slice(t);
            return;
        }
        let single = match self {
            Lf => Some(LF),
            Cr => Some(CR),
            Ht => Some(HT),
            Ff => Some(FF),
            _ => None,
        };
        if let Some(b) = single {
            o.push(b);
            return;
        }
        if let Cancel = self {
            o.extend_from_slice(&[CAN, b'@']);
            return;
        }
        let mut gs = |c: u8, rest: &[u8]| {
            o.push(GS);
            o.push(c);
            o.extend_from_slice(rest);
        };
        match self {
            Invert(n) => gs(b'B', &[*n]),
            Smooth(n) => gs(b'b', &[*n]),
            CharSize(n) => gs(b'!', &[*n]),
            Effects(f, d) => {
                let len = (d.len() + 1) as u16;
                gs(b'(', &[b'N', len as u8, (len >> 8) as u8, *f]);
                o.extend_from_slice(d);
            }
            BarHeight(n) => gs(b'h', &[*n]),
            BarWidth(n) => gs(b'w', &[*n]),
            BarFont(n) => gs(b'f', &[*n]),
            Hri(n) => gs(b'H', &[*n]),
            Motion(x, y) => gs(b'P', &[*x, *y]),
            AbsY(n) => gs(b'$', &n.to_le_bytes()),
            RelY(n) => gs(b'\\', &n.to_le_bytes()),
            GsG(d) => {
                gs(b'(', &[b'G', d.len() as u8, (d.len() >> 8) as u8]);
                o.extend_from_slice(d);
            }
            Cut(m, n) => {
                if cut_has_length(*m) {
                    gs(b'V', &[*m, *n])
                } else {
                    gs(b'V', &[*m])
                }
            }
            PrinterId(n) => gs(b'I', &[*n]),
            Response(m, f, d) => {
                let len = (d.len() + 2) as u16;
                gs(b'(', &[b'H', len as u8, (len >> 8) as u8, *m, *f]);
                o.extend_from_slice(d);
            }
            Barcode(m, d) => {
                if *m <= 6 {
                    gs(b'k', &[*m]);
                    o.extend_from_slice(d);
                    o.push(0);
                } else if (65..=79).contains(m) {
                    gs(b'k', &[*m, d.len() as u8]);
                    o.extend_from_slice(d);
                } else {
                    gs(b'k', &[*m]);
                }
            }
            Raster(m, w, h, d) => {
                gs(b'v', &[b'0', *m, *w as u8, (*w >> 8) as u8, *h as u8, (*h >> 8) as u8]);
                o.extend_from_slice(d);
            }
            Code2d(cn, f, d) => {
                let len = (d.len() + 2) as u16;
                gs(b'(', &[b'k', len as u8, (len >> 8) as u8, *cn, *f]);
                o.extend_from_slice(d);
            }
            Gfx(large, m, f, d) => {
                if *large {
                    let len = (d.len() + 2) as u32;
                    gs(b'8', &[b'L']);
                    o.extend_from_slice(&len.to_le_bytes());
                    o.extend_from_slice(&[*m, *f]);
                } else {
                    let len = (d.len() + 2) as u16;
                    gs(b'(', &[b'L', len as u8, (len >> 8) as u8, *m, *f]);
                }
                o.extend_from_slice(d);
            }
            _ => unreachable!(),
        }
    }
}

pub fn encode(items: &[Item]) -> Vec<u8> {
    let mut o = vec![];
    for i in items {
        i.put(&mut o);
    }
    o
}

/// Functions of GS ( k that exist
pub const KNOWN_2D: [(u8, u8); 40] = [
    (48, 65), (48, 66), (48, 67), (48, 69), (48, 70), (48, 80), (48, 81), (48, 82), (49, 65), (49, 67), (49, 69), (49, 80),
    (49, 81), (49, 82), (50, 65), (50, 80), (50, 81), (50, 82), (51, 67), (51, 71), (51, 80), (51, 81), (51, 82), (52, 67),
    (52, 71), (52, 72), (52, 80), (52, 81), (52, 82), (53, 66), (53, 67), (53, 69), (53, 80), (53, 81), (53, 82), (54, 66),
    (54, 67), (54, 80), (54, 81), (54, 82),
];

/// Functions of GS ( L and GS 8 L that exist
pub const KNOWN_GFX: [u8; 22] =
    [0, 48, 1, 49, 2, 50, 4, 52, 64, 65, 66, 67, 68, 69, 80, 81, 82, 83, 84, 85, 112, 113];

impl Item {
    /// A command that has to be reported as unknown
    pub fn is_unknown(&self) -> bool {
        match self {
            Item::Raw(_) => true,
            Item::Code2d(cn, f, _) => !KNOWN_2D.contains(&(*cn, *f)),
            Item::Gfx(_, _, f, _) => !KNOWN_GFX.contains(f),
            _ => false,
        }
    }
}

/// Text that stands next to text is one run
pub fn coalesce(items: &[Item]) -> Vec<Item> {
    let mut v: Vec<Item> = vec![];
    for i in items {
        if let (Item::Text(t), Some(Item::Text(p))) = (i, v.last_mut()) {
            p.extend_from_slice(t);
            continue;
        }
        // an unknown command takes what follows it, up to the next command
        if let (Item::Text(t), Some(Item::Raw(p))) = (i, v.last_mut()) {
            p.extend_from_slice(t);
            continue;
        }
        if let Item::Text(t) = i {
            if t.is_empty() {
                continue;
            }
        }
        v.push(i.clone());
    }
    v
}

pub fn show(items: &[Item]) -> String {
    let parts: Vec<String> = items
        .iter()
        .map(|i| match i {
            Item::Text(t) if t.len() <= 300 => format!("Text({:?})", String::from_utf8_lossy(t)),
            Item::Lf => "LF".into(),
            i => {
                let s = format!("{:?}", i);
                if s.len() > 160 {
                    format!("{}... ({} chars)", s.chars().take(150).collect::<String>(), s.len())
                } else {
                    s
                }
            }
        })
        .collect();
    parts.join(", ")
}
