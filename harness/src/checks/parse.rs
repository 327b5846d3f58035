//! C01 to C05: reading bytes and text
use super::*;
use crate::gen::*;
use crate::sut::{self, no_debug};
use thermal_parser::thermal_file;
use thermal_renderer::renderer::DebugProfile;

/// Bytes of a job that was damaged
fn damage(s: &mut Src, job: &mut Vec<u8>) {
    let n = 1 + s.n(4);
    for _ in 0..n {
        if job.is_empty() {
            return;
        }
        match s.below(6) {
            0 => {
                let i = s.n(job.len());
                job[i] = s.bbyte();
            }
            1 => {
                let i = s.n(job.len());
                job.remove(i);
            }
            2 => {
                let i = s.n(job.len() + 1);
                let b = s.bbyte();
                job.insert(i, b);
            }
            3 => {
                let i = s.n(job.len());
                job.truncate(i);
            }
            4 => {
                let i = s.n(job.len());
                job[i] ^= 1 << s.below(8);
            }
            _ => {
                let a = s.n(job.len());
                let b = (a + 1 + s.n(8)).min(job.len());
                let part = job[a..b].to_vec();
                let at = s.n(job.len() + 1);
                job.splice(at..at, part);
            }
        }
    }
}

/// Bytes that start commands mixed with parameters
fn junk(s: &mut Src, max: usize) -> Vec<u8> {
    let n = s.len(max);
    let mut v = vec![];
    while v.len() < n {
        match s.below(5) {
            0 => {
                v.push(27);
                v.push(s.one(b"@!MEG-{4tRrD23$SLWTadeJ=pc*\x0c"));
            }
            1 => {
                v.push(29);
                v.push(s.one(b"BbN!hwfHP$\\VIkv8("));
            }
            2 => v.extend(s.one(&[
                &b"\x1d(k"[..], b"\x1d(L", b"\x1d8L", b"\x1d(N", b"\x1d(H", b"\x1d(G", b"\x1dv0", b"\x1dk", b"\x1b*", b"\x18@",
                b"\x1b\x0c", b"\x10", b"\x1c",
            ])),
            3 => v.push(s.bbyte()),
            _ => v.push(s.one(&[0u8, 1, 2, 3, 48, 49, 50, 51, 65, 66, 69, 80, 81, 112, 255, 10, 9, 13, 12])),
        }
    }
    v
}

fn hostile(s: &mut Src) -> Vec<u8> {
    match s.below(8) {
        0 => {
            let n = s.len(80);
            s.bytes(n)
        }
        1 => junk(s, 80),
        2 => {
            // hostile data for one command at the end of something harmless
            let mut j = encode(&g_job(s, 2, &MIXED));
            j.extend(junk(s, 30));
            j
        }
        3 | 4 => {
            let n = 1 + s.n(8);
            let mut v = vec![];
            for _ in 0..n {
                v.push(g_any(s))
            }
            encode(&v)
        }
        5 => {
            let n = 1 + s.n(6);
            let v: Vec<Item> = (0..n).map(|_| g_any(s)).collect();
            let mut j = encode(&v);
            damage(s, &mut j);
            j
        }
        6 => {
            let n = 2 + s.n(6);
            let mut j = encode(&g_job(s, n, &MIXED));
            damage(s, &mut j);
            j
        }
        _ => {
            // everything inside page mode, with changing areas and directions
            let mut v = vec![Item::PageMode];
            let n = 1 + s.n(8);
            for _ in 0..n {
                match s.below(5) {
                    0 => {
                        let (a, b) = (s.below(700) as u16, s.below(300) as u16);
                        let (c, d) = (s.below(700) as u16, s.below(300) as u16);
                        v.push(Item::Area(a, b, c, d));
                    }
                    1 => v.push(Item::Dir(s.below(4) as u8)),
                    2 => v.push(g_any(s)),
                    _ => v.extend(g_job(s, 1, &MIXED)),
                }
            }
            if s.chance(3, 4) {
                v.push(Item::PageFf);
            }
            encode(&v)
        }
    }
}

fn survives(e: &mut Env, s: &mut Src, o: &mut Obs, job: &[u8]) -> Res {
    o.job(job);
    o.desc(|| format!("{} bytes", job.len()));
    let cmds = sut::parse_raw(job);
    if cmds.len() < 2 {
        return Err("the begin and the end of the stream are not reported".into());
    }
    o.nontrivial = cmds.len() > 3;
    let text = thermal_file::cmds_to_thermal(&cmds);
    let _ = thermal_file::parse_str(&text);
    let r = e.sut.record(job);
    if r.docs.is_empty() {
        return Err("no document".into());
    }
    let tall: u64 = r.docs.iter().map(|d| d.extent() as u64).sum();
    let limit = if s.chance(1, 60) { 100_000 } else { 5_000 };
    let p = DebugProfile { text: s.chance(1, 6), image: s.chance(1, 6), page: s.chance(1, 6), info: false };
    if tall > limit {
        o.label("too tall to draw");
        return Ok(());
    }
    o.label("drawn");
    o.label_if(r.docs.iter().any(|d| d.pages > 0), "with pages");
    o.label_if(!r.errors.is_empty(), "with errors");
    let q = e.sut.picture_dbg(job, p);
    for d in &q.docs {
        if d.w != PAPER_WIDTH {
            return Err(format!("picture is {} wide", d.w));
        }
    }
    let h = e.sut.html_dbg(job, if s.chance(1, 4) { p } else { no_debug() });
    if q.docs.len() != r.docs.len() || h.docs.len() != r.docs.len() {
        return Err(format!("{} pictures and {} html documents of {} documents", q.docs.len(), h.docs.len(), r.docs.len()));
    }
    Ok(())
}

fn c01_bytes(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let job = hostile(s);
    survives(e, s, o, &job)
}

/// Every command with short, extreme and inconsistent data, alone and cut
fn c01_single(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let mut v = vec![];
    if s.chance(1, 3) {
        v.push(Item::PageMode);
        if s.chance(2, 3) {
            let (w, h) = (s.below(650) as u16, s.below(200) as u16);
            v.push(Item::Area(s.below(640) as u16, s.below(90) as u16, w, h));
        }
        v.push(Item::Dir(s.below(4) as u8));
    }
    if s.chance(1, 3) {
        v.push(g_size_item(s));
    }
    if s.chance(1, 4) {
        v.push(Item::AbsX(s.one(&[608u16, 609, 610, 650, 65535, 600, 0])));
    }
    v.push(g_any(s));
    if s.chance(1, 2) {
        v.push(Item::Text(b"ab c".to_vec()));
    }
    if s.chance(1, 2) {
        v.push(g_any(s));
    }
    if s.chance(1, 3) {
        v.push(Item::PageFf);
    }
    let mut job = encode(&v);
    if s.chance(1, 3) {
        let n = s.n(job.len() + 1);
        job.truncate(n);
    }
    survives(e, s, o, &job)
}

fn g_size_item(s: &mut Src) -> Item {
    match s.below(4) {
        0 => Item::CharSize(s.byte()),
        1 => Item::Spacing(s.byte()),
        2 => Item::Font(g_font(s)),
        _ => {
            let n = s.len(32);
            crate::gen::tab_stops(s, n, 255)
        }
    }
}

fn c01_text(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let mut t = String::new();
    if s.chance(2, 3) {
        // the text of a job with some damage
        let v: Vec<Item> = (0..1 + s.n(5)).map(|_| g_any(s)).collect();
        t = thermal_file::cmds_to_thermal(&sut::parse_raw(&encode(&v)));
    }
    let n = if t.is_empty() { s.len(60) } else { s.len(6) };
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..n {
        let at = if t.is_empty() { c.len() } else { s.n(c.len() + 1) };
        if !t.is_empty() && s.chance(1, 3) && at < c.len() {
            c.remove(at);
            continue;
        }
        let new: String = match s.below(6) {
            0 => s.one(&["ESC", "GS", "0x", "0xG1", "0xFF", "0x100", "'//", "\"", "\\", "\\\"", "\n", "256", "255", "-1", "+1", " ", "\t", "\r\n"]).to_string(),
            1 => char::from_u32(s.below(0x300) as u32).unwrap_or('x').to_string(),
            2 => s.one(&['é', '日', '😀', '\u{a0}', '\u{2028}', '\u{85}']).to_string(),
            3 => (s.u(32, 126) as u8 as char).to_string(),
            _ => s.one(&['"', ' ', 'a', '0', 'x', '\\', '\n']).to_string(),
        };
        c.splice(at..at, new.chars());
    }
    let t: String = c.into_iter().collect();
    o.job(t.as_bytes());
    o.desc(|| format!("{:?}", t));
    let job = thermal_file::parse_str(&t);
    o.nontrivial = !job.is_empty();
    let _ = thermal_file::parse_tokens(t.lines().next().unwrap_or(""));
    survives(e, s, o, &job)
}

/// Commands that declare much more data than they get
fn c01_declared(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let mut job = encode(&g_job(s, 3, &MIXED));
    let hi = |s: &mut Src| s.one(&[255u8, 255, 254, 128, 127, 16, 1]);
    let mut head: Vec<u8> = match s.below(8) {
        0..=2 => vec![0x1d, b'v', b'0', s.below(4) as u8 + s.one(&[0u8, 48]), s.byte(), hi(s), s.byte(), hi(s)],
        3 => vec![0x1b, b'*', s.one(&[0u8, 1, 32, 33]), s.byte(), hi(s)],
        4 => vec![0x1d, b'(', b'k', s.byte(), hi(s), 49, 80, 48],
        5 | 6 => {
            let mut v = if s.chance(1, 2) { vec![0x1d, b'(', b'L', s.byte(), hi(s)] } else { vec![0x1d, b'8', b'L', s.byte(), hi(s), s.one(&[0u8, 1, 255]), s.one(&[0u8, 1, 255])] };
            let f = s.one(&[67u8, 68, 83, 84, 112, 113]);
            v.extend([48, f]);
            match f {
                112 | 113 => v.extend([s.one(&[48u8, 52]), 1 + s.below(255) as u8, 1 + s.below(255) as u8, 49 + s.below(3) as u8]),
                _ => v.extend([48, 65, 66, s.one(&[1u8, 2, 255])]),
            }
            v.extend([s.byte(), hi(s), s.byte(), hi(s)]);
            v
        }
        _ => vec![0x1d, b'k', 65 + s.below(15) as u8, hi(s)],
    };
    let n = if s.chance(1, 3) { 0 } else { s.len(300) };
    head.extend(s.bytes(n));
    job.extend(head);
    survives(e, s, o, &job)
}

/// Real jobs of every kind, big ones
fn c01_big(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let n = 10 + s.n(40);
    let v = g_job(s, n, &Mix { ff: 1, page: 3, bad: 3, ..MIXED });
    let job = encode(&v);
    survives(e, s, o, &job)
}

/// Documents so tall that work on every row for every row would never end, drawn
fn c01_tall(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let goal = 50_000 + s.below(60_000);
    let mut v = vec![];
    let mut dots = 0;
    while dots < goal {
        let n = 1 + s.below(255);
        match s.below(4) {
            0 => {
                for _ in 0..n {
                    v.push(Item::Text(g_word(s, 12)));
                    v.push(Item::Lf);
                }
                dots += n * 24;
            }
            1 => {
                for _ in 0..n {
                    v.push(Item::FeedDots(255));
                }
                dots += n * 255;
            }
            _ => {
                v.push(Item::Spacing(255));
                v.push(Item::FeedLines(n as u8));
                dots += n * 255;
                if s.chance(1, 2) {
                    v.push(Item::Spacing(24));
                }
            }
        }
        let n = s.n(6);
        v.extend(g_job(s, n, &Mix { page: 2, bad: 1, ..MIXED }));
    }
    let job = encode(&v);
    o.job(&job);
    o.desc(|| format!("{} bytes", job.len()));
    let r = e.sut.record(&job);
    let tall: u64 = r.docs.iter().map(|d| d.extent() as u64).sum();
    if tall > 150_000 {
        o.label("too tall to draw");
        return Ok(());
    }
    o.nontrivial = tall >= 20_000;
    o.label_if(tall > 65_535, "more than 65535 dots");
    let q = e.sut.picture(&job);
    let h = e.sut.html(&job);
    if q.docs.len() != r.docs.len() || h.docs.len() != r.docs.len() {
        return Err(format!("{} pictures and {} html documents of {} documents", q.docs.len(), h.docs.len(), r.docs.len()));
    }
    Ok(())
}

/// The same few commands thousands of times in one job
fn c01_repeat(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let mut v = vec![];
    if s.chance(1, 4) {
        v.push(Item::PageMode);
    }
    let mut part = vec![];
    for _ in 0..1 + s.below(3) {
        match s.below(3) {
            0 => part.push(g_any(s)),
            1 => part.push(Item::Text(g_word(s, 6))),
            _ => part.extend(g_job(s, 1, &Mix { ff: 1, page: 2, bad: 2, ..MIXED })),
        }
    }
    let part = encode(&part);
    let mut job = encode(&v);
    let most = 200_000 / part.len().max(1) as u64;
    let n = most.min(s.one(&[1000u64, 3000, 10_000, 70_000]));
    for _ in 0..n {
        job.extend(&part);
    }
    o.job(&job);
    o.desc(|| format!("{} times {:02x?}", n, part));
    let r = e.sut.record(&job);
    let tall: u64 = r.docs.iter().map(|d| d.extent() as u64).sum();
    o.nontrivial = n >= 1000;
    o.label_if(r.docs.len() > 1000, "more than 1000 documents");
    let h = e.sut.html(&job);
    if h.docs.len() != r.docs.len() {
        return Err(format!("{} html documents of {} documents", h.docs.len(), r.docs.len()));
    }
    if tall > 60_000 || r.docs.len() > 2000 {
        o.label("too tall to draw");
        return Ok(());
    }
    let q = e.sut.picture(&job);
    if q.docs.len() != r.docs.len() {
        return Err(format!("{} pictures of {} documents", q.docs.len(), r.docs.len()));
    }
    Ok(())
}

/// The jobs of the other checks, whole and damaged, at the speed of the layout
fn c01_jobs(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let mut v = vec![];
    for _ in 0..1 + s.below(3) {
        v.extend(match s.below(12) {
            0..=3 => text::g_layout_job(s),
            4 => images::g_image_job(s, 8),
            5 => images::g_store_job(s, 12),
            6 => page::pages_of(s, true, text::page_text),
            7 => page::pages_of(s, true, text::page_styles),
            8 => page::pages_of(s, true, images::page_graphics),
            9 => page::pages_of(s, true, codes::page_bars),
            10 => page::pages_of(s, true, codes::page_qr),
            _ => {
                let n = 2 + s.n(12);
                g_job(s, n, &Mix { ff: 1, page: 3, bad: 3, ..MIXED })
            }
        });
    }
    let mut job = encode(&v);
    if s.chance(1, 3) {
        damage(s, &mut job);
    }
    o.job(&job);
    o.desc(|| format!("{} bytes", job.len()));
    let r = e.sut.record(&job);
    if r.docs.is_empty() {
        return Err("no document".into());
    }
    o.nontrivial = true;
    o.label_if(r.docs.iter().any(|d| d.pages > 0), "with pages");
    Ok(())
}

/// Positions far beyond any paper
fn c01_far(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let line = 255 * 255u64;
    let around = |s: &mut Src| s.one(&[1u64 << 31, 1 << 32, 3 << 31, 1 << 33]) / line;
    let mut v = vec![];
    if s.chance(1, 2) {
        v.push(Item::PageMode);
        v.push(Item::Area(s.below(500) as u16, s.below(90) as u16, s.below(609) as u16, s.below(200) as u16));
        v.push(Item::Dir(s.below(4) as u8));
    }
    v.push(Item::Spacing(255));
    let times = 1 + s.below(2);
    for _ in 0..times {
        let n = around(s) + s.below(12);
        v.extend((0..n - n.min(6)).map(|_| Item::FeedLines(255)));
        if s.chance(2, 3) {
            v.push(Item::Spacing(s.byte()));
        }
        let n = 1 + s.n(8);
        for _ in 0..n {
            match s.below(8) {
                0 => v.push(Item::FeedDots(s.byte())),
                1 => v.push(Item::RelY(s.one(&[i16::MAX, i16::MIN, 100, -100]))),
                2 => v.extend(g_page(s)),
                _ => v.extend(g_job(s, 2, &Mix { page: 2, bad: 1, ..MIXED })),
            }
        }
        if s.chance(1, 2) {
            v.push(Item::PageFf);
        }
        v.push(Item::Spacing(255));
    }
    let job = encode(&v);
    o.job(&job);
    o.desc(|| format!("{} bytes", job.len()));
    let r = e.sut.record(&job);
    let h = e.sut.html(&job);
    if r.docs.is_empty() || h.docs.len() != r.docs.len() {
        return Err(format!("{} html documents of {} documents", h.docs.len(), r.docs.len()));
    }
    o.nontrivial = true;
    o.label_if(r.docs.iter().any(|d| d.pages > 0), "with pages");
    Ok(())
}

// ---------------------------------------------------------------- C02

/// The bytes of each command in the stream
fn pieces(job: &[u8]) -> Vec<(sut::Cmd, Vec<u8>)> {
    let v = sut::parse_raw(job);
    let n = v.len();
    v.iter()
        .enumerate()
        .filter(|(i, c)| !((*i == 0 || *i == n - 1) && c.commands.is_empty() && c.data.is_empty()))
        .map(|(_, c)| {
            let (mut b, d) = c.handler.get_command_bytes(c);
            let k = sut::cmd(c);
            if k.unknown {
                b.clear();
            }
            b.extend(d);
            (k, b)
        })
        .collect()
}

fn no_loose(items: Vec<Item>) -> Vec<Item> {
    // bytes that are taken with an unknown command until the next one
    let mut v: Vec<Item> = vec![];
    for i in coalesce(&items) {
        let prev_raw = matches!(v.last(), Some(Item::Raw(_)));
        if prev_raw && matches!(i, Item::Raw(_) | Item::Text(_)) {
            v.push(Item::Lf);
        }
        v.push(i);
    }
    v
}

fn lossless(job: &[u8], p: &[(sut::Cmd, Vec<u8>)]) -> Res {
    let all: Vec<u8> = p.iter().flat_map(|x| x.1.clone()).collect();
    if all != job {
        let i = all.iter().zip(job).position(|(a, b)| a != b).unwrap_or(all.len().min(job.len()));
        return Err(format!("the bytes of the commands differ from the stream at byte {} ({} bytes of {})", i, all.len(), job.len()));
    }
    Ok(())
}

fn c02_framing(_e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let n = 1 + s.len(14);
    let mut v: Vec<Item> = (0..n).map(|_| g_any(s)).collect();
    if s.chance(1, 3) {
        v.extend(g_job(s, 3, &MIXED));
    }
    let mut items = no_loose(v);
    open_tabs(s, &mut items);
    o.nontrivial = items.len() > 2;
    framing(o, &items)
}

/// Commands with more data than one byte of their length can say
fn c02_long(_e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let mut v: Vec<Item> = (0..s.n(3)).map(|_| g_any(s)).collect();
    for _ in 0..1 + s.n(2) {
        v.push(g_large(s));
        if s.chance(1, 2) {
            v.push(g_any(s));
        }
    }
    v.push(Item::Text(b"end".to_vec()));
    let items = no_loose(v);
    o.nontrivial = true;
    framing(o, &items)
}

/// More data than three bytes of a length can say
fn c02_huge(_e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let h = [4095u16, 4096, 4097][s.index as usize % 3];
    let d = gfx_def(true, false, (32, 33), 32768, h, &[(49, vec![0x81; 4096 * h as usize])]);
    let v = vec![Item::Lf, Item::Gfx(true, 48, 67, d), Item::Text(b"end".to_vec())];
    o.nontrivial = true;
    framing(o, &v)
}

/// Long commands survive the way to text and back
fn c03_long(_e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let v = vec![g_any(s), g_large(s), g_any(s)];
    let job = send(o, &no_loose(v));
    o.nontrivial = true;
    there_and_back(&job)
}

fn framing(o: &mut Obs, items: &[Item]) -> Res {
    let job = send(o, items);
    let p = pieces(&job);
    for (i, it) in items.iter().enumerate() {
        let b = encode(std::slice::from_ref(it));
        let Some((c, got)) = p.get(i) else {
            return Err(format!("only {} commands, {} were sent, missing {}", p.len(), items.len(), show(std::slice::from_ref(it))));
        };
        if *got != b {
            let (n, m) = (got.len().min(60), b.len().min(60));
            return Err(format!("command {}: {} has {} bytes {:02x?} instead of {} bytes {:02x?} ({})", i, show(std::slice::from_ref(it)), got.len(), &got[..n], b.len(), &b[..m], c.name));
        }
        if c.unknown != it.is_unknown() {
            return Err(format!("command {}: {} is {}", i, show(std::slice::from_ref(it)), c.name));
        }
        let text = matches!(it, Item::Text(_) | Item::Lf | Item::Cr | Item::Ht);
        if c.text != text {
            return Err(format!("command {}: {} is {}", i, show(std::slice::from_ref(it)), c.name));
        }
        // the same command on its own
        let alone = pieces(&b);
        if alone.len() != 1 || alone[0].0 != *c {
            return Err(format!("command {}: {} is {}, on its own it is {} commands that differ", i, show(std::slice::from_ref(it)), c.name, alone.len()));
        }
        o.label(&c.name);
    }
    if p.len() != items.len() {
        return Err(format!("{} commands instead of {}: {:?}", p.len(), items.len(), p.last()));
    }
    lossless(&job, &p)
}

/// The commands before the place where a stream is cut off are the same
fn c02_cut_off(_e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let n = 1 + s.len(8);
    let v: Vec<Item> = (0..n).map(|_| g_any(s)).collect();
    let items = no_loose(v);
    let job = encode(&items);
    let cut = s.n(job.len() + 1);
    let part = &job[..cut];
    o.job(part);
    o.desc(|| format!("first {} of {} bytes of {}", cut, job.len(), show(&items)));
    let p = pieces(part);
    lossless(part, &p)?;
    let whole = pieces(&job);
    let mut at = 0;
    let mut inside = false;
    for (i, it) in items.iter().enumerate() {
        let b = encode(std::slice::from_ref(it));
        if at + b.len() > cut {
            inside = at < cut;
            break;
        }
        at += b.len();
        // a cut right after an unknown command or text ends it too
        if p.get(i) != whole.get(i) {
            return Err(format!("command {} is {:?} when the stream ends later, {:?} when it ends at byte {}", i, whole.get(i), p.get(i), cut));
        }
    }
    o.nontrivial = inside;
    Ok(())
}

fn c02_lossless(_e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let job = hostile(s);
    o.job(&job);
    o.desc(|| format!("{} bytes", job.len()));
    let p = pieces(&job);
    o.nontrivial = p.len() > 2;
    lossless(&job, &p)
}

// ---------------------------------------------------------------- C03

fn first_diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("at byte {} ({:02x?} became {:02x?}), {} bytes became {}", i, a.get(i), b.get(i), a.len(), b.len())
}

fn there_and_back(job: &[u8]) -> Res {
    let text = thermal_file::cmds_to_thermal(&sut::parse_raw(job));
    let back = thermal_file::parse_str(&text);
    if back != job {
        return Err(format!("lost {}; text {:?}", first_diff(job, &back), text));
    }
    let again = thermal_file::cmds_to_thermal(&sut::parse_raw(&back));
    if again != text {
        return Err(format!("converted again the text is {:?} instead of {:?}", again, text));
    }
    Ok(())
}

fn c03_items(_e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let n = 1 + s.len(12);
    let v: Vec<Item> = (0..n).map(|_| g_any(s)).collect();
    let job = send(o, &v);
    o.nontrivial = v.len() > 1;
    there_and_back(&job)
}

fn c03_text(_e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let n = 1 + s.len(30);
    let mut job = vec![];
    for _ in 0..n {
        match s.below(8) {
            0 => job.extend(s.one(&[&b"'//"[..], b"\"", b"\\", b"\\\"", b"\\\\", b"0x41", b"ESC", b"LF", b"65", b"{{", b"\\n"])),
            1 => job.extend(s.one(&["é", "日本", "😀", "\u{a0}", "\u{85}", "\u{2028}"]).as_bytes()),
            2 => job.push(s.byte()),
            3 => job.push(s.one(&[9u8, 10, 13, 11, 0, 8, 31, 127, 7])),
            _ => job.push(s.u(32, 126) as u8),
        }
    }
    o.job(&job);
    o.desc(|| format!("{:?}", String::from_utf8_lossy(&job)));
    o.nontrivial = job.len() > 4;
    there_and_back(&job)
}

fn c03_hostile(_e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let job = hostile(s);
    o.job(&job);
    o.desc(|| format!("{} bytes", job.len()));
    o.nontrivial = job.len() > 4;
    there_and_back(&job)
}

/// Every pair of first bytes
fn c03_pairs(_e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let (a, b) = ((s.index >> 8) as u8, s.index as u8);
    let tail = s.index % 3;
    let mut job = vec![a, b];
    if tail == 1 {
        job.extend(b"Q\x01\x02")
    }
    if tail == 2 {
        job.extend(b"\x1b@\"x")
    }
    o.job(&job);
    o.desc(|| format!("{:02x?}", job));
    o.nontrivial = true;
    there_and_back(&job)
}

// ---------------------------------------------------------------- C04

#[derive(Debug, Clone)]
enum Tok {
    Str(String),
    Hex(u8, u8),
    Dec(u8, u8),
    Name(usize),
    Word(String),
}

const NAMES: [(&str, u8); 10] = [
    ("NUL", 0), ("ESC", 27), ("HT", 9), ("LF", 10), ("FF", 12), ("CR", 13), ("GS", 29), ("FS", 28), ("DLE", 16), ("CAN", 24),
];

fn g_tok(s: &mut Src) -> Tok {
    match s.below(5) {
        0 => Tok::Hex(s.byte(), s.below(4) as u8),
        1 => Tok::Dec(s.bbyte(), s.below(3) as u8),
        2 => Tok::Name(s.n(10)),
        3 => {
            let n = if s.chance(1, 400) { s.len(4000) } else { s.len(14) };
            let t: String = (0..n)
                .map(|_| match s.below(7) {
                    0 => '"',
                    1 => '\\',
                    2 => ' ',
                    3 => s.one(&['é', 'ß', '日', '😀', '\u{a0}', '\'', '/', '\t', '#']),
                    _ => s.u(32, 126) as u8 as char,
                })
                .collect();
            Tok::Str(t)
        }
        // words that only look like one of the names
        4 if s.chance(1, 5) => {
            let name = s.pick(&NAMES).0;
            Tok::Word(match s.below(5) {
                0 => name.to_lowercase(),
                1 => format!("{}{}", name, s.u(97, 122) as u8 as char),
                2 => format!("{}{}", s.u(65, 90) as u8 as char, name),
                3 => format!("{}{}", name, name),
                _ => format!("{}{}", &name[..1], name[1..].to_lowercase()),
            })
        }
        4 if s.chance(1, 6) => Tok::Word(format!("{}", s.one(&[256u32, 257, 300, 511, 999, 1000, 2560, 65535, 65600]))),
        _ => {
            // a word that is none of the other kinds
            let n = 1 + s.n(6);
            let mut t: String = (0..n)
                .map(|_| match s.below(4) {
                    0 => s.one(&['é', '日', '/', '\'', '.', '-', '#', 'x', '@', ';', ',', '\u{a0}', '\u{3000}', 'A', 'F']),
                    1 => s.u(48, 57) as u8 as char,
                    _ => s.u(97, 122) as u8 as char,
                })
                .collect();
            let named = NAMES.iter().any(|x| x.0 == t);
            // (numbers above 255 are words)
            let plain = t.bytes().all(|b| b.is_ascii_digit()) && t.parse::<u32>().unwrap() < 256;
            if named || plain || t.starts_with("0x") || t.starts_with("'//") || t.trim().is_empty() {
                t = format!("w{}", t);
            }
            Tok::Word(t)
        }
    }
}

fn tok_bytes(t: &Tok, o: &mut Vec<u8>) {
    match t {
        Tok::Str(t) | Tok::Word(t) => o.extend_from_slice(t.as_bytes()),
        Tok::Hex(b, _) | Tok::Dec(b, _) => o.push(*b),
        Tok::Name(i) => o.push(NAMES[*i].1),
    }
}

fn tok_text(t: &Tok) -> String {
    match t {
        Tok::Str(t) => format!("\"{}\"", t.replace('\\', "\\\\").replace('"', "\\\"")),
        Tok::Word(t) => t.clone(),
        Tok::Hex(b, 0) => format!("0x{:02X}", b),
        Tok::Hex(b, 1) => format!("0x{:02x}", b),
        Tok::Hex(b, 2) => format!("0x{:x}", b),
        Tok::Hex(b, _) => format!("0x{:X}", b),
        Tok::Dec(b, 0) => format!("{}", b),
        Tok::Dec(b, 1) => format!("{:03}", b),
        Tok::Dec(b, _) => format!("{}", b),
        Tok::Name(i) => NAMES[*i].0.to_string(),
    }
}

fn c04_tokens(_e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let n = if s.chance(1, 200) { 1 + s.len(3000) } else { 1 + s.len(16) };
    let toks: Vec<Tok> = (0..n).map(|_| g_tok(s)).collect();
    let mut want = vec![];
    for t in &toks {
        tok_bytes(t, &mut want);
    }
    let comment = |s: &mut Src, t: &mut String| {
        t.push_str("'//");
        t.push_str(s.one(&["", " Initialize", " \"quoted\" ESC 0x41", " it's // '// é \\", "\"", "65"]));
    };
    // two ways to write the same tokens
    for way in 0..2 {
        let mut t = String::new();
        if s.chance(1, 4) {
            comment(s, &mut t);
            t.push_str("\n");
        }
        let mut prev_str: Option<bool> = None;
        for k in &toks {
            let is_str = matches!(k, Tok::Str(_));
            if let Some(p) = prev_str {
                match s.below(8) {
                    // only where one of both is quoted they may touch
                    0 | 1 if p || is_str => o.label("touching"),
                    2 => {
                        t.push_str(s.one(&["\n", "\r\n", " \n", "\n\n", "\n  \t\n "]));
                        o.label("new line");
                    }
                    3 => {
                        t.push_str("\n");
                        comment(s, &mut t);
                        t.push_str(s.one(&["\n", "\r\n", "\n\n"]));
                        o.label("comment");
                    }
                    4 => t.push_str(s.one(&["  ", "\t", " \t "])),
                    _ => t.push(' '),
                }
            }
            // a word at the start of a line must not look like a comment
            t.push_str(&tok_text(k));
            prev_str = Some(is_str);
        }
        t.push_str(s.one(&["", "\n", " ", "\r\n", "\n'// end", "\n\n"]));
        o.job(t.as_bytes());
        o.desc(|| format!("{:?}", t));
        let got = thermal_file::parse_str(&t);
        if got != want {
            return Err(format!("way {}: {:?} reads as {:02x?}, expected {:02x?}", way, t, got, want));
        }
    }
    o.nontrivial = toks.len() > 2;
    Ok(())
}

/// Each value in each notation
fn c04_values(_e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let b = s.index as u8;
    let t = match s.index >> 8 {
        0 => format!("0x{:02X}", b),
        1 => format!("0x{:02x}", b),
        2 => format!("{}", b),
        _ => format!("0x{:X} {}", b, b),
    };
    o.job(t.as_bytes());
    o.nontrivial = true;
    let want = if s.index >> 8 == 3 { vec![b, b] } else { vec![b] };
    let got = thermal_file::parse_str(&t);
    if got != want {
        return Err(format!("{:?} reads as {:02x?}", t, got));
    }
    // and a character in quotes
    let c = char::from_u32(32 + b as u32 + 256 * (s.index >> 8) as u32).unwrap();
    let q = match c {
        '"' => "\"\\\"\"".to_string(),
        '\\' => "\"\\\\\"".to_string(),
        c => format!("\"{}\"", c),
    };
    let got = thermal_file::parse_str(&q);
    if got != c.to_string().as_bytes() {
        return Err(format!("{:?} reads as {:02x?}", q, got));
    }
    Ok(())
}

// ---------------------------------------------------------------- C05

const TEXT_ONLY: Aspects = Aspects { chars: true, text: true, ..cmp::NONE };

/// Every byte in every table and set
/// The sets that exist and some neighbours that don't
const SETS: [u8; 33] = [
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 82, 65,
    255,
];

fn c05_tables(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let i = s.index;
    let (page, set) = ((i % 256) as u8, SETS[(i / 256) as usize]);
    // in table 255 only ASCII is taken byte by byte
    let mut bytes: Vec<u8> = (0..=255u8).filter(|b| is_text_byte(*b)).collect();
    if page == 255 {
        bytes.retain(|b| *b < 128);
        bytes.extend("é日😀ß".as_bytes());
    }
    let items = vec![Item::Table(page), Item::Charset(set), Item::Text(bytes)];
    o.nontrivial = e.tables.pages().contains(&page) || e.tables.sets().contains(&set);
    o.label_if(e.tables.pages().contains(&page), "known table");
    o.label_if(e.tables.sets().contains(&set), "known set");
    layout(e, o, &items, &TEXT_ONLY)?;
    Ok(())
}

fn c05_select(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let n = 2 + s.len(14);
    let pages = e.tables.pages();
    let mut v = vec![];
    let mut changes = 0;
    for _ in 0..n {
        match s.below(8) {
            0 | 1 => {
                v.push(Item::Table(if s.chance(1, 5) { s.byte() } else { *s.pick(&pages) }));
                changes += 1;
            }
            2 | 3 => {
                v.push(Item::Charset(if s.chance(1, 5) { s.byte() } else { s.one(&SETS) }));
                changes += 1;
            }
            4 => v.push(s.one(&[Item::Lf, Item::FeedLines(1)].each_ref()).clone()),
            5 => v.push(g_look(s)),
            _ => {
                // national positions and the upper half
                let k = 1 + s.len(20);
                let mut t = vec![];
                for _ in 0..k {
                    let b = match s.below(3) {
                        0 => s.one(b"#$@[\\]^`{|}~09"),
                        1 => s.u(128, 255) as u8,
                        _ => s.u(32, 127) as u8,
                    };
                    t.push(b);
                }
                v.push(Item::Text(t));
            }
        }
    }
    o.nontrivial = changes > 1;
    layout(e, o, &v, &TEXT_ONLY)?;
    Ok(())
}

/// The characters in the html, which shows them as they are
fn c05_html(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let pages = e.tables.pages();
    let page = *s.pick(&pages);
    let set = s.below(19) as u8;
    let t = g_text_bytes(s, 40);
    let items = vec![Item::Table(page), Item::Charset(set), Item::Text(t.clone()), Item::Lf];
    let job = send(o, &items);
    o.nontrivial = t.len() > 3;
    let h = e.sut.html(&job);
    let p = crate::html::read(&h.docs[0])?;
    let got: String = p
        .evs
        .iter()
        .map(|x| match x {
            crate::html::HEv::Span(s) => s.text.iter().collect::<String>(),
            _ => String::new(),
        })
        .collect();
    let want: String = e.tables.decode(page, set, &t).chars().filter(|c| *c != '\n' && *c != '\r' && *c != '\t').collect();
    if got != want {
        return Err(format!("table {} set {}: {:02x?} is shown as {:?}, expected {:?}", page, set, t, got, want));
    }
    Ok(())
}

pub fn props() -> Vec<Prop<Env>> {
    vec![
        Prop {
            id: "C01",
            rule: "a case is non-trivial when its bytes parse to at least two commands; distinct by the bytes sent",
            assumptions: &[
                "pictures are drawn for documents up to 150000 dots tall, taller ones only go through parsing and layout",
                "the renderers are reused between cases except after a panic",
            ],
            subs: vec![
                slow("bytes", c01_bytes, 9000, 600_000),
                slow("single", c01_single, 9000, 600_000),
                slow("text", c01_text, 11_000, 200_000),
                slow("big", c01_big, 200, 10_000),
                slow("tall", c01_tall, 60, 4_000),
                slow("repeat", c01_repeat, 120, 8_000),
                slow("declared", c01_declared, 6_900, 200_000),
                slow("jobs", c01_jobs, 80_000, 1_500_000),
                slow("far", c01_far, 120, 8_000),
            ],
        },
        Prop {
            id: "C02",
            rule: "a case is non-trivial when the stream has at least three commands, or is cut off inside a command; distinct by the bytes sent",
            assumptions: &["an unknown command takes all bytes up to the next recognised command"],
            subs: vec![
                sub("framing", c02_framing, 60_000, 2_000_000),
                sub("long", c02_long, 4_000, 100_000),
                all("huge", c02_huge, 3),
                sub("cut_off", c02_cut_off, 200_000, 1_500_000),
                sub("lossless", c02_lossless, 300_000, 1_500_000),
            ],
        },
        Prop {
            id: "C03",
            rule: "a case is non-trivial when it has at least two commands or five bytes; distinct by the bytes converted",
            assumptions: &[],
            subs: vec![
                sub("commands", c03_items, 150_000, 2_000_000),
                sub("long", c03_long, 1_500, 40_000),
                sub("text", c03_text, 300_000, 1_500_000),
                sub("hostile", c03_hostile, 200_000, 1_500_000),
                all("pairs", c03_pairs, 65536),
            ],
        },
        Prop {
            id: "C04",
            rule: "a case is non-trivial when it has at least three tokens; distinct by the text",
            assumptions: &["inside quotes only backslash and quote are escaped, comments take whole lines"],
            subs: vec![sub("tokens", c04_tokens, 900_000, 4_000_000), all("values", c04_values, 1024)],
        },
        Prop {
            id: "C05",
            rule: "a case is non-trivial when it uses a table or set that exists, or changes them twice; distinct by the bytes sent",
            assumptions: &[
                "tables without a number of their own read as table 437, sets without one as USA, table 255 is UTF-8",
                "the code tables come from Python's codecs, the national sets 0 to 15 from the ESC/POS reference the code cites; the sets above 15 (Vietnam, Arabia, Indic digits) were taken over from the code",
            ],
            subs: vec![all("tables", c05_tables, 256 * 33), sub("select", c05_select, 120_000, 600_000), sub("html", c05_html, 22_000, 100_000)],
        },
    ]
}
