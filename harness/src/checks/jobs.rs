//! C14, C16, C18, C20 and C21: jobs as a whole
use super::*;
use crate::gen::*;
use crate::items::Item::*;
use crate::sut::{self, RecDoc};
use thermal_parser::command_sets;
use thermal_parser::parser::Parser;

fn is_nv(i: &Item) -> bool {
    matches!(i, Gfx(_, _, 65..=69, _))
}

/// Settings of every kind with any value
fn g_setting(s: &mut Src) -> Item {
    match s.below(16) {
        0 => g_style(s),
        1 => g_just(s),
        2 => g_spacing(s),
        3 => g_tab(s),
        4 => Table(s.one(&[0u8, 1, 2, 5, 11, 13, 16, 255])),
        5 => Charset(s.below(18) as u8),
        6 | 7 => g_bar_setting(s),
        8 | 9 => g_qr_setting(s),
        10 => g_motion(s),
        11 => {
            let d = g_qr_data(s, 10);
            qr_store(&d)
        }
        12 => {
            let k = g_key(s);
            let nv = s.chance(1, 2);
            g_gfx_define(s, nv, k, 30, 20)
        }
        13 => g_buffer(s, 30, 20),
        14 => Gfx(false, 48, 49, s.one(&[vec![50u8, 50], vec![51, 51]].each_ref()).clone()),
        _ => g_style(s),
    }
}

/// Something of everything that depends on a setting
fn g_probe(s: &mut Src) -> Vec<Item> {
    let mut v = vec![];
    let n = 1 + s.n(6);
    for _ in 0..n {
        match s.below(12) {
            0 | 1 => v.push(Text(g_ascii(s, 30))),
            2 => v.push(Text(g_text_bytes(s, 10))),
            3 => {
                v.push(Ht);
                v.push(Text(g_word(s, 4)));
            }
            4 => v.push(Lf),
            5 => v.push(g_barcode(s, 4)),
            6 => {
                if s.chance(1, 2) {
                    let d = g_qr_data(s, 10);
                    v.push(qr_store(&d));
                }
                v.push(qr_print());
            }
            7 => {
                let nv = s.chance(1, 2);
                let k = g_key(s);
                v.push(gfx_print(nv, k));
            }
            8 => v.push(gfx_flush()),
            9 => {
                v.push(AbsX(s.below(200) as u16));
                v.push(Text(g_word(s, 4)));
            }
            10 => v.extend(g_page(s)),
            _ => {
                v.push(FeedLines(1 + s.below(3) as u8));
                v.push(Underline(1));
                v.push(Text(g_word(s, 4)));
            }
        }
    }
    v
}

// ---------------------------------------------------------------- C14

fn g_prefix(s: &mut Src) -> Vec<Item> {
    let n = 1 + s.len(12);
    let mut v = vec![];
    for _ in 0..n {
        match s.below(8) {
            0..=4 => v.push(g_setting(s)),
            5 => v.extend(g_job(s, 1, &MIXED)),
            6 => v.push(Text(g_ascii(s, 20))),
            _ => {
                v.push(PageMode);
                if s.chance(1, 2) {
                    v.push(Area(s.below(100) as u16, s.below(50) as u16, 200, 100));
                }
                if s.chance(1, 2) {
                    v.push(Dir(s.below(4) as u8));
                }
                if s.chance(1, 2) {
                    v.push(Text(g_word(s, 5)));
                }
            }
        }
    }
    // no feed to above of the area
    let mut page = false;
    for i in v.iter_mut() {
        match i {
            PageMode => page = true,
            StdMode | Init | Ff => page = false,
            ReverseLines(n) if page => *i = FeedLines(*n),
            _ => {}
        }
    }
    v
}

fn c14_model(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let mut v = g_prefix(s);
    v.push(Init);
    v.extend(g_probe(s));
    if s.chance(1, 3) {
        v.extend(g_job(s, 3, &MIXED));
    }
    o.nontrivial = true;
    layout(e, o, &v, &cmp::ALL).map(|_| ())
}

fn shifted(d: &RecDoc, dy: u32) -> Vec<(Ev, bool)> {
    d.evs
        .iter()
        .map(|(e, p)| {
            let mut e = e.clone();
            if !p {
                match &mut e {
                    Ev::Cell(c) => c.y += dy,
                    Ev::Rect { y, .. } => *y += dy,
                    Ev::Img { y, .. } => *y += dy,
                }
            }
            (e, *p)
        })
        .collect()
}

/// What comes after prefix and initialise is what comes on a new printer,
/// further down. `nv` is what the prefix put into the non volatile memory.
fn as_new(e: &mut Env, o: &mut Obs, prefix: &[Item], suffix: &[Item]) -> Res {
    let mut a = prefix.to_vec();
    a.push(Init);
    // back to the start of a line
    a.push(FeedLines(0));
    let used = e.sut.record(&encode(&a));
    let mut b: Vec<Item> = prefix.iter().filter(|i| is_nv(i) && !matches!(i, Gfx(_, _, 69, _))).cloned().collect();
    b.push(FeedLines(0));
    b.extend_from_slice(suffix);
    a.extend_from_slice(suffix);
    let job = send(o, &a);
    let got = e.sut.record(&job);
    let new = e.sut.record(&encode(&b));
    if used.docs.len() != 1 || got.docs.len() != 1 || new.docs.len() != 1 {
        return Err(format!("{} {} {} documents", used.docs.len(), got.docs.len(), new.docs.len()));
    }
    let (u, g, n) = (&used.docs[0], &got.docs[0], &new.docs[0]);
    let dy = u.end_y as i64 - n.start_y as i64;
    if dy < 0 {
        // reverse feeds before, everything is further up
        o.label("further up");
    }
    let k = u.evs.len();
    if g.evs.len() < k || g.evs[..k] != u.evs[..] {
        return Err("what was printed before changed".into());
    }
    let want = if dy >= 0 { shifted(n, dy as u32) } else { n.evs.clone() };
    let got_evs: Vec<(Ev, bool)> = if dy >= 0 { g.evs[k..].to_vec() } else {
        let mut t = g.clone();
        t.evs = g.evs[k..].to_vec();
        shifted(&t, (-dy) as u32)
    };
    if want != got_evs {
        let i = want.iter().zip(&got_evs).position(|(a, b)| a != b).unwrap_or(want.len().min(got_evs.len()));
        return Err(format!("after initialise output {} is {:?}, on a new printer {:?}", i, got_evs.get(i), want.get(i)));
    }
    if g.end_y as i64 != n.end_y as i64 + dy {
        return Err(format!("the paper moves by {} after initialise, by {} on a new printer", g.end_y - u.end_y, n.end_y - n.start_y));
    }
    let (kg, ku, kn) = (got.kinds(), used.kinds(), new.kinds());
    if kg[ku.len().min(kg.len())..] != kn[..] {
        return Err(format!("errors after initialise are {:?}, on a new printer {:?}", &kg[ku.len().min(kg.len())..], kn));
    }
    Ok(())
}

fn c14_as_new(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let prefix: Vec<Item> = g_prefix(s);
    let mut suffix = g_probe(s);
    if s.chance(1, 3) {
        suffix.extend(g_job(s, 3, &Mix { gfx: 0, ..MIXED }));
    }
    suffix.retain(|i| !matches!(i, ReverseLines(_)) && (!is_nv(i) || matches!(i, Gfx(_, _, 69, _))));
    // a form feed in standard mode starts another document
    let mut page = false;
    suffix.retain(|i| {
        match i {
            PageMode => page = true,
            StdMode | Init => page = false,
            Ff if !page => return false,
            Ff => page = false,
            _ => {}
        }
        true
    });
    o.nontrivial = true;
    as_new(e, o, &no_std_ff(prefix), &suffix)
}

fn no_std_ff(v: Vec<Item>) -> Vec<Item> {
    let mut page = false;
    v.into_iter()
        .filter(|i| {
            match i {
                PageMode => page = true,
                StdMode | Init => page = false,
                Ff if !page => return false,
                Ff => page = false,
                _ => {}
            }
            true
        })
        .collect()
}

/// Each setting alone, and one job that depends on all of them
fn c14_each(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let bmp = gfx_def(false, false, (32, 65), 8, 2, &[(50, vec![0xA5, 0x5A])]);
    let settings: Vec<Vec<Item>> = vec![
        vec![PrintMode(0xB9)],
        vec![Font(1)],
        vec![Font(97)],
        vec![Emphasis(1)],
        vec![Strike(1)],
        vec![Underline(1)],
        vec![Underline(2)],
        vec![Upside(1)],
        vec![Italic(1)],
        vec![Table(2)],
        vec![Table(255)],
        vec![Charset(1)],
        vec![Charset(17)],
        vec![AltColor(1)],
        vec![Invert(1)],
        vec![CharSize(0x77)],
        vec![CharSize(0x10)],
        vec![CharSize(0x01)],
        vec![Effects(48, vec![51])],
        vec![Effects(49, vec![50])],
        vec![Tab(vec![3, 0])],
        vec![Tab(vec![0])],
        vec![Tab(vec![5, 17, 200, 0])],
        vec![Spacing(60)],
        vec![Spacing(0)],
        vec![BarHeight(3)],
        vec![BarWidth(6)],
        vec![BarFont(1)],
        vec![Hri(1)],
        vec![Hri(3)],
        vec![Motion(20, 20)],
        vec![Motion(255, 10)],
        vec![Just(1)],
        vec![Just(2)],
        vec![PageMode],
        vec![PageMode, Dir(1)],
        vec![PageMode, Dir(2), Area(10, 10, 100, 100), Dir(3)],
        vec![PageMode, Area(10, 10, 100, 100), AbsX(20), AbsY(20)],
        vec![Code2d(49, 65, vec![50, 0])],
        vec![Code2d(49, 65, vec![51, 0])],
        vec![Code2d(49, 67, vec![8])],
        vec![Code2d(49, 69, vec![51])],
        vec![qr_store(b"before")],
        vec![Gfx(false, 48, 83, bmp.clone())],
        vec![Gfx(false, 48, 67, bmp.clone())],
        vec![Gfx(false, 48, 67, bmp.clone()), Gfx(false, 48, 65, b"CLR".to_vec())],
        vec![Gfx(false, 48, 112, [&[48u8, 1, 1, 49, 8, 0, 1, 0][..], &[0xF0]].concat())],
        vec![Gfx(false, 48, 112, vec![48u8, 1, 1, 49, 8, 0, 1, 0])],
        vec![Gfx(false, 48, 49, vec![50, 50])],
        vec![Gfx(false, 48, 49, vec![51, 51])],
        vec![Text(b"unfinished line".to_vec())],
        vec![AbsX(300)],
        vec![Raw(vec![27, b'#', 1])],
    ];
    let n = settings.len() as u64;
    let mut prefix = settings[(s.index % n) as usize].clone();
    prefix.extend(settings[(s.index / n) as usize % n as usize].clone());
    let suffix = vec![
        Text(b"aT\x80\xE1[\\]{|}#$@ ".to_vec()),
        Ht,
        Text(b"tab".to_vec()),
        Lf,
        FeedLines(2),
        Underline(1),
        Strike(1),
        Text(b"lines".to_vec()),
        Lf,
        Barcode(73, b"{BAb1".to_vec()),
        qr_print(),
        qr_store(b"12345"),
        qr_print(),
        gfx_print(false, (32, 65)),
        gfx_print(true, (32, 65)),
        gfx_flush(),
        AbsX(120),
        Text(b"at".to_vec()),
        Lf,
        PageMode,
        Text(b"no area".to_vec()),
        Area(8, 16, 160, 80),
        Text(b"page".to_vec()),
        PageFf,
        Dir(1),
        Text(b"turned".to_vec()),
        Ff,
        Text(b"end".to_vec()),
    ];
    o.nontrivial = true;
    as_new(e, o, &prefix, &suffix)
}

// ---------------------------------------------------------------- C16

type All = (Vec<RecDoc>, Vec<String>, Vec<crate::canvas::Pic>, Vec<String>, Vec<String>);

fn texts<T>(o: &Out<T>) -> Vec<String> {
    o.errors.iter().map(|e| e.1.clone()).collect()
}

fn everything(t: &mut Sut, job: &[u8]) -> All {
    let r = t.record(job);
    let h = t.html(job);
    let mut errs = texts(&r);
    errs.extend(texts(&h));
    let tall: u64 = r.docs.iter().map(|d| d.extent() as u64).sum();
    let (pics, e2) = if tall < 2500 {
        let p = t.picture(job);
        let e = texts(&p);
        (p.docs, e)
    } else {
        (vec![], vec![])
    };
    (r.docs, h.docs, pics, errs, e2)
}

fn same(a: &All, b: &All, when: &str) -> Res {
    if a.0 != b.0 {
        return Err(format!("the layout is another one {}", when));
    }
    if a.1 != b.1 {
        return Err(format!("the html is another one {}", when));
    }
    if a.2 != b.2 {
        return Err(format!("the picture is another one {}", when));
    }
    if a.3 != b.3 || a.4 != b.4 {
        return Err(format!("the errors are others {}: {:?} {:?}, before {:?} {:?}", when, b.3, b.4, a.3, a.4));
    }
    Ok(())
}

fn g_full(s: &mut Src, max: usize) -> Vec<u8> {
    let n = 1 + s.len(max);
    let v = g_job(s, n, &Mix { ff: 1, page: 2, bad: 2, tables: 2, ..MIXED });
    encode(&v)
}

/// A job that leaves as much behind as possible
fn g_leaving(s: &mut Src) -> Vec<u8> {
    let mut v = g_prefix(s);
    v.extend(g_job(s, 2, &Mix { ff: 1, page: 2, bad: 2, ..MIXED }));
    let mut j = encode(&v);
    if s.chance(1, 2) {
        let n = s.n(j.len() + 1);
        j.truncate(n);
    }
    if s.chance(1, 3) {
        j.extend(s.one(&[&b"\x1d"[..], b"\x1b", b"\x1d(L\x20\x00\x30", b"\x1dk\x41\x0b12", b"\x1b*\x21\x10\x00\x01", b"\x1d(", b"open text", b"\x1b$\x01"]));
    }
    j
}

fn c16_again(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let job = g_full(s, 12);
    o.job(&job);
    o.desc(|| format!("job of {} bytes", job.len()));
    o.nontrivial = job.len() > 20;
    let a = everything(&mut e.sut, &job);
    let b = everything(&mut e.sut, &job);
    same(&a, &b, "the second time")
}

fn c16_after(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let job = g_full(s, 8);
    let other = g_leaving(s);
    o.job(&other);
    o.job(&job);
    o.desc(|| format!("first {:02x?}", other));
    o.nontrivial = true;
    let mut fresh = Sut::new();
    let a = everything(&mut fresh, &job);
    let _ = everything(&mut e.sut, &other);
    let b = everything(&mut e.sut, &job);
    same(&a, &b, "after another job")?;
    if s.chance(1, 4) {
        let p = sut::fresh_picture(&job);
        if !a.2.is_empty() && p.docs != a.2 {
            return Err("the picture through the public function is another one".into());
        }
        let h = sut::fresh_html(&job);
        if h.docs != a.1 {
            return Err("the html through the public function is another one".into());
        }
    }
    Ok(())
}

fn c16_parser(_e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let n = 2 + s.n(3);
    let mut p = Parser::new(command_sets::esc_pos::new());
    o.nontrivial = true;
    for k in 0..n {
        let j = if s.chance(1, 2) { g_leaving(s) } else { g_full(s, 6) };
        o.job(&j);
        o.desc(|| format!("stream {}: {:02x?}", k, j));
        let a: Vec<sut::Cmd> = p.parse_bytes(&j).iter().map(sut::cmd).collect();
        let b: Vec<sut::Cmd> = sut::parse_raw(&j).iter().map(sut::cmd).collect();
        if a != b {
            let i = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
            return Err(format!("stream {}: command {} is {:?} with a used parser, {:?} with a new one", k, i, a.get(i), b.get(i)));
        }
    }
    Ok(())
}

/// What a job gives, in few characters
fn digest(a: &All) -> String {
    let part = |t: String| format!("{:016x}", crate::engine::hash_bytes(t.as_bytes()));
    let pics: Vec<_> = a.2.iter().map(|p| (p.w, p.h, crate::engine::hash_bytes(&p.px.concat()))).collect();
    format!("layout {} html {} picture {} errors {}", part(format!("{:?}", a.0)), part(format!("{:?}", a.1)), part(format!("{:?}", pics)), part(format!("{:?}", (&a.3, &a.4))))
}

/// A process that has rendered nothing before: the job comes from its input
pub fn digest_of_input() -> ! {
    use std::io::Read;
    let mut job = vec![];
    std::io::stdin().read_to_end(&mut job).unwrap();
    println!("{}", digest(&everything(&mut Sut::new(), &job)));
    std::process::exit(0)
}

fn digest_elsewhere(job: &[u8]) -> Result<String, String> {
    use std::io::Write;
    let run = || -> std::io::Result<std::process::Output> {
        let mut c = std::process::Command::new(std::env::current_exe()?)
            .arg("digest")
            .stdin(std::process::Stdio::piped())
            .stdout(std::process::Stdio::piped())
            .stderr(std::process::Stdio::null())
            .spawn()?;
        c.stdin.take().unwrap().write_all(job)?;
        c.wait_with_output()
    };
    // what keeps a process from being started says nothing about the job
    match run() {
        Ok(o) if o.status.success() => {
            // the library prints as well
            let t = String::from_utf8_lossy(&o.stdout).to_string();
            Ok(t.lines().last().unwrap_or("").to_string())
        }
        Ok(o) => Err(format!("the job alone in a process ends it with {:?}", o.status)),
        Err(_) => Ok(String::new()),
    }
}

/// Words of any characters
fn g_line(s: &mut Src) -> Vec<u8> {
    let n = s.n(50);
    let mut v: Vec<u8> = (0..n).map(|_| s.u(0, 255) as u8).filter(|b| is_text_byte(*b)).flat_map(|b| if b % 8 == 0 { vec![b' ', b] } else { vec![b] }).collect();
    v.push(10);
    v
}

/// A job gives what it gives in a process that has done nothing else, whatever
/// was rendered in this one
fn c16_process(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let n = 4 + s.n(24);
    for k in 0..n {
        let j = if s.chance(1, 4) { g_leaving(s) } else { [g_line(s), g_full(s, 6)].concat() };
        o.job(&j);
        o.desc(|| format!("before {}: {:02x?}", k, j));
        if s.chance(1, 3) {
            let _ = everything(&mut e.sut, &j);
        } else {
            let _ = e.sut.html(&j);
        }
    }
    let job = [g_line(s), g_full(s, 16), g_line(s)].concat();
    o.job(&job);
    o.nontrivial = true;
    let here = digest(&everything(&mut e.sut, &job));
    let there = digest_elsewhere(&job)?;
    o.label_if(there.is_empty(), "no process");
    if !there.is_empty() && here != there {
        return Err(format!("after other jobs: {}, in a process of its own: {}", here, there));
    }
    Ok(())
}

/// Several threads at once give what one gives
fn c16_threads(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let n = 2 + s.n(3);
    let per = 1 + s.n(3);
    let jobs: Vec<Vec<Vec<u8>>> = (0..n).map(|_| (0..per).map(|_| if s.chance(1, 3) { g_leaving(s) } else { g_full(s, 8) }).collect()).collect();
    for j in jobs.iter().flatten() {
        o.job(j);
    }
    o.desc(|| format!("{} threads", n));
    o.nontrivial = true;
    // what is handed over between threads
    let plain = |a: &All| format!("{:?}", (&a.0, &a.1, a.2.iter().map(|p| (p.w, p.h, crate::engine::hash_bytes(&p.px.concat()))).collect::<Vec<_>>(), &a.3, &a.4));
    let want: Vec<Vec<String>> = jobs.iter().map(|js| js.iter().map(|j| plain(&everything(&mut e.sut, j))).collect()).collect();
    let start = std::sync::Arc::new(std::sync::Barrier::new(n));
    let hs: Vec<_> = jobs
        .iter()
        .cloned()
        .map(|js| {
            let start = start.clone();
            std::thread::spawn(move || {
                let mut t = Sut::new();
                start.wait();
                js.iter()
                    .map(|j| {
                        let a = everything(&mut t, j);
                        format!("{:?}", (&a.0, &a.1, a.2.iter().map(|p| (p.w, p.h, crate::engine::hash_bytes(&p.px.concat()))).collect::<Vec<_>>(), &a.3, &a.4))
                    })
                    .collect::<Vec<String>>()
            })
        })
        .collect();
    for (k, h) in hs.into_iter().enumerate() {
        let got = h.join().map_err(|_| format!("thread {} panicked", k))?;
        for (i, (a, b)) in want[k].iter().zip(&got).enumerate() {
            if a != b {
                return Err(format!("job {} of thread {} gives another output than alone", i, k));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C18

/// Commands without problems
fn g_valid(s: &mut Src, n: usize) -> Vec<Item> {
    let mut v = g_job(s, n, &Mix { bad: 0, page: 0, ff: 1, init: 0, ..MIXED });
    let mut stored = false;
    // a QR code is printed only when something is stored
    v.retain(|i| match i {
        Code2d(49, 80, _) => {
            stored = true;
            true
        }
        Code2d(49, 65, _) => false,
        Code2d(49, 81, _) => stored,
        _ => true,
    });
    v
}

fn c18_valid(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let n = 1 + s.len(14);
    let v = g_valid(s, n);
    let job = send(o, &v);
    let w = want(&e.tables, &v);
    if !w.errors.is_empty() {
        // data that fits no symbol
        o.label("not valid");
        return Ok(());
    }
    o.nontrivial = v.len() > 3;
    let r = e.sut.record(&job);
    let h = e.sut.html(&job);
    for (n, x) in [("layout", texts(&r)), ("html", texts(&h))] {
        if !x.is_empty() {
            return Err(format!("{}: errors of a valid job: {:?}", n, x));
        }
    }
    if height(&w) < 1500 && !w.overflow && s.chance(1, 3) {
        // what starts outside of the paper can't be drawn
        let inside = w.docs.iter().all(|d| d.ops.iter().all(|o| match o {
            Op::Draw(Ev::Cell(c)) => c.x < WIDTH,
            Op::Draw(Ev::Rect { x, .. } | Ev::Img { x, .. }) => *x < WIDTH,
            _ => true,
        }));
        if inside {
            let p = texts(&e.sut.picture(&job));
            if !p.is_empty() {
                return Err(format!("picture: errors of a valid job: {:?}", p));
            }
        }
    }
    Ok(())
}

/// Whether nothing is waiting to be printed after this
fn settles(i: &Item) -> bool {
    matches!(
        i,
        Lf | FeedLines(_) | FeedDots(_) | ReverseLines(_) | Just(_) | Spacing(_) | DefaultSpacing | Barcode(..) | BitImage(..) | Raster(..) | AbsX(_) | Init | Ff
    ) || matches!(i, Cut(m, _) if [0, 1, 48, 49, 65, 66, 97, 98, 103, 104].contains(m))
}

fn g_bad(s: &mut Src, settled: bool) -> Vec<Item> {
    if !settled || s.chance(1, 2) {
        return vec![match s.below(4) {
            0 => {
                // subcommands nobody knows
                let f = s.one(&[1u8, 60, 99, 200]);
                let n = s.n(5);
                let d = s.bytes(n);
                let it = match s.below(3) {
                    0 => Code2d(s.one(&[0u8, 47, 60, 99]), f, d),
                    1 => Code2d(49, f, d),
                    _ => Gfx(s.chance(1, 2), 48, s.one(&[5u8, 60, 99, 200, 63]), d),
                };
                it
            }
            _ => g_unknown(s),
        }];
    }
    match s.below(4) {
        0 => vec![Gfx(false, 48, s.one(&[83u8, 84]), vec![48, 99, 99, 1, 8, 0, 3, 0, 49, 1]), gfx_print(false, (99, 99))],
        1 => vec![Gfx(false, 48, s.one(&[67u8, 68]), vec![48, 98, 98, 2, 8, 0, 1, 0, 49, 1]), gfx_print(true, (98, 98))],
        _ => vec![g_bad_barcode(s)],
    }
}

fn c18_inserted(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let n = 1 + s.len(10);
    let v = coalesce(&g_valid(s, n));
    let base = e.sut.record(&encode(&v));
    let k = 1 + s.n(4);
    let mut marks = vec![0usize; v.len() + 1];
    for _ in 0..k {
        let i = s.n(v.len() + 1);
        marks[i] += 1;
    }
    let mut job = vec![];
    let mut bad = 0;
    let mut settled = true;
    let mut page = false;
    for i in 0..=v.len() {
        for _ in 0..marks[i] {
            // an unknown command takes the text that follows it
            let text_next = matches!(v.get(i), Some(Text(_)));
            if text_next && matches!(job.last(), Some(Text(_))) {
                continue;
            }
            let b = g_bad(s, settled && !page);
            let raw = matches!(b[0], Raw(_));
            if raw && (text_next || matches!(job.last(), Some(Raw(_)))) {
                continue;
            }
            bad += 1;
            job.extend(b);
        }
        if let Some(it) = v.get(i) {
            match it {
                PageMode => page = true,
                StdMode | Ff | Init => page = false,
                _ => {}
            }
            // a line feed waits with the text before it, but ends it
            settled = settles(it) || (settled && !matches!(it, Text(_) | Cr | Ht));
            job.push(it.clone());
        }
    }
    let bytes = send(o, &job);
    o.nontrivial = bad > 0 && !v.is_empty();
    o.label(&format!("{} bad commands", bad.min(5)));
    let got = e.sut.record(&bytes);
    if got.docs != base.docs {
        let d = cmp_docs(&base.docs, &got.docs);
        return Err(format!("bad commands change what is printed: {}", d));
    }
    if got.errors.len() != base.errors.len() + bad {
        return Err(format!("{} errors reported for {} bad commands: {:?}", got.errors.len() - base.errors.len().min(got.errors.len()), bad, texts(&got)));
    }
    if s.chance(1, 6) {
        let h = e.sut.html(&bytes);
        let hb = e.sut.html(&encode(&v));
        if h.docs.len() != hb.docs.len() {
            return Err("another number of html documents".into());
        }
        for (a, b) in h.docs.iter().zip(&hb.docs) {
            if super::html::joined(a)? != super::html::joined(b)? {
                return Err("bad commands change the html".into());
            }
        }
        if h.errors.len() != hb.errors.len() + bad {
            return Err(format!("html: {} errors reported for {} bad commands", h.errors.len(), bad));
        }
        // none is left for the job after it
        let p = e.sut.picture(b"fine");
        if !p.errors.is_empty() {
            return Err(format!("errors of another job: {:?}", texts(&p)));
        }
    }
    Ok(())
}

fn cmp_docs(a: &[RecDoc], b: &[RecDoc]) -> String {
    if a.len() != b.len() {
        return format!("{} documents instead of {}", b.len(), a.len());
    }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if x == y {
            continue;
        }
        if let Some(j) = x.evs.iter().zip(&y.evs).position(|(p, q)| p != q) {
            return format!("document {} output {}: {:?} instead of {:?}", i, j, y.evs[j], x.evs[j]);
        }
        if x.evs.len() != y.evs.len() {
            return format!("document {}: {} pieces of output instead of {}", i, y.evs.len(), x.evs.len());
        }
        return format!("document {}: {}..{} pages {:?} instead of {}..{} {:?}", i, y.start_y, y.end_y, y.page_at, x.start_y, x.end_y, x.page_at);
    }
    "nothing".into()
}

/// Each kind of problem is reported with its kind, in order, and only in
/// its own job
fn c18_kinds(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let n = 1 + s.len(8);
    let v = g_job(s, n, &Mix { bad: 6, page: 1, ff: 1, ..MIXED });
    // unknown commands end where the next one starts
    let mut items: Vec<Item> = vec![];
    for i in coalesce(&v) {
        if matches!(items.last(), Some(Raw(_))) && matches!(i, Raw(_) | Text(_)) {
            items.push(Lf);
        }
        items.push(i);
    }
    let job = send(o, &items);
    let w = want(&e.tables, &items);
    o.nontrivial = !w.errors.is_empty();
    for _ in 0..2 {
        same_errors(&w.errors, &e.sut.record(&job))?;
    }
    same_errors(&w.errors, &e.sut.html(&job))?;
    if !e.sut.html(b"fine\n").errors.is_empty() {
        return Err("the next job has errors of this one".into());
    }
    // outside of the paper: one error for each thing that can't be drawn
    if height(&w) < 1500 {
        let p = e.sut.picture(&job);
        same_errors(&w.errors, &p)?;
        let q = e.sut.picture(b"fine\n");
        if !q.errors.is_empty() {
            return Err(format!("the next picture has errors of this one: {:?}", texts(&q)));
        }
    }
    Ok(())
}

/// Block images have their own place, whatever the position was, so none is
/// outside of the paper
/// However many errors there are, all of them are reported
fn c18_many(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let n = s.one(&[150u64, 300, 600, 1000, 2000]);
    let n = n + s.below(n);
    let mut items: Vec<Item> = vec![];
    // few kinds of command, some take long to render
    let (docs, rest) = (s.below(3) as u32, s.below(4) as u32);
    for _ in 0..n {
        match s.weighted(&[8, rest, docs]) {
            0 => items.extend(g_bad(s, true)),
            1 => items.push(Text(g_word(s, 4))),
            _ => items.push(Ff),
        }
        items.push(Lf);
    }
    let items = coalesce(&items);
    let job = send(o, &items);
    let w = want(&e.tables, &items);
    o.nontrivial = w.errors.len() > 255;
    o.label_if(w.errors.len() > 255, "more than 255 errors");
    o.label_if(w.docs.len() > 255, "more than 255 documents");
    let (r, h) = (e.sut.record(&job), e.sut.html(&job));
    same_errors(&w.errors, &r)?;
    same_errors(&w.errors, &h)?;
    if h.docs.len() != w.docs.len() || r.docs.len() != w.docs.len() {
        return Err(format!("{} and {} documents instead of {}", r.docs.len(), h.docs.len(), w.docs.len()));
    }
    Ok(())
}

fn c18_outside(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let n = 1 + s.n(4);
    let mut v = vec![];
    let mut out = vec![0usize; 1];
    for _ in 0..n {
        match s.below(4) {
            0 | 1 => {
                v.push(AbsX(s.u(609, 2000) as u16));
                v.push(Raster(0, 1, 2, vec![0xFF, 0x0F]));
                // a block image starts at its own place again
            }
            2 => {
                v.push(Ff);
                out.push(0);
            }
            _ => v.push(Text(b"inside\n".to_vec())),
        }
    }
    let v: Vec<Item> = v.into_iter().flat_map(|i| match i {
        Text(_) => vec![Text(b"inside".to_vec()), Lf],
        i => vec![i],
    }).collect();
    let job = send(o, &v);
    o.nontrivial = v.len() > 2;
    let p = e.sut.picture(&job);
    if !p.errors.is_empty() {
        return Err(format!("nothing is drawn outside of the paper, reported {:?}", texts(&p)));
    }
    if p.docs.len() != out.len() {
        return Err(format!("{} documents", p.docs.len()));
    }
    Ok(())
}

/// A page printed right of the paper is reported, nothing else is: text and
/// images go to the next line where they don't fit
fn c18_beyond(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let n = 1 + s.n(6);
    let mut v = vec![];
    let mut page = false;
    for _ in 0..n {
        if !page {
            match s.below(10) {
                0 => v.push(Ff),
                1 => v.push(g_style(s)),
                2 => v.push(Text(g_word(s, 30))),
                3 => v.push(g_look(s)),
                4 => v.push(BitImage(33, 20, vec![0xFF; 60])),
                5 => v.push(Lf),
                _ => {}
            }
            if s.chance(3, 4) {
                v.push(AbsX(s.one(&[0u16, 1, 100, 575, 576, 577, 607, 608, 609, 610, 700, 65535])));
            }
            if s.chance(1, 3) {
                v.push(Text(g_word(s, 6)));
            }
        }
        if page || s.chance(2, 3) {
            if !page {
                v.push(PageMode);
                v.push(Area(0, 0, s.u(1, 200) as u16, s.u(30, 60) as u16));
                if s.chance(1, 2) {
                    v.push(Raster(0, 1, 1, vec![0xFF]));
                }
            }
            page = s.chance(1, 4);
            v.push(if page { PageFf } else { Ff });
        }
    }
    let job = send(o, &v);
    let w = want(&e.tables, &v);
    let mut at = vec![];
    for (i, d) in w.docs.iter().enumerate() {
        for op in &d.ops {
            if let Op::PagePrint { x, .. } = op {
                if *x >= crate::model::WIDTH {
                    at.push(i);
                }
            }
        }
    }
    o.nontrivial = !at.is_empty();
    o.label_if(at.first() != at.last(), "in several documents");
    let p = e.sut.picture(&job);
    if p.errors.len() != at.len() || p.kinds().iter().any(|k| *k != Kind::Child) {
        return Err(format!("{} pages are printed right of the paper, reported {:?}", at.len(), texts(&p)));
    }
    Ok(())
}

/// What starts outside of a page is reported once for each time the page is
/// drawn on, what starts inside is not
fn c18_page(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let docs = 1 + s.n(3);
    let mut v = vec![];
    let mut want = vec![];
    for i in 0..docs {
        if i > 0 {
            v.push(StdMode);
            v.push(Ff);
        }
        let (w, h) = (s.u(20, 300) as u16, s.u(10, 120) as u16);
        v.push(PageMode);
        v.push(Area(0, 0, w, h));
        for _ in 0..s.n(4) {
            // images go to the next line where they don't fit into the width
            let x = s.below(w as u64) as u16;
            let y = if s.chance(1, 2) { h + s.below(40) as u16 } else { s.below(h as u64) as u16 };
            v.push(AbsY(y));
            v.push(AbsX(x));
            // one thing to draw
            let it = if s.chance(1, 2) { BitImage(33, 1, vec![0xFF; 3]) } else { Raster(0, 1, 1, vec![0xFF]) };
            v.push(it.clone());
            if y >= h {
                want.push(i);
            }
            // the same again at the same place
            while s.chance(1, 4) {
                v.extend([AbsY(y), AbsX(x), it.clone()]);
                if y >= h {
                    want.push(i);
                }
            }
        }
        if s.chance(1, 2) {
            v.push(PageFf);
        }
    }
    let job = send(o, &v);
    o.nontrivial = !want.is_empty();
    let p = e.sut.picture(&job);
    if p.errors.len() != want.len() || p.kinds().iter().any(|k| *k != Kind::Child) {
        return Err(format!("{} things are outside of their page, reported {:?}", want.len(), texts(&p)));
    }
    if p.docs.len() != docs {
        return Err(format!("{} pictures of {} documents", p.docs.len(), docs));
    }
    Ok(())
}

// ---------------------------------------------------------------- C20

fn g_docs(s: &mut Src, m: &Mix) -> Vec<Vec<Item>> {
    let k = 2 + s.n(3);
    (0..k)
        .map(|_| {
            let n = s.len(6);
            let mut v = g_job(s, n, m);
            if s.chance(1, 3) {
                v.push(Text(g_word(s, 8)));
            }
            v
        })
        .collect()
}

fn c20_model(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let docs = g_docs(s, &Mix { page: 2, ..MIXED });
    let mut v = vec![];
    for (i, d) in docs.iter().enumerate() {
        if i > 0 {
            if s.chance(1, 4) {
                v.push(g_setting(s));
            }
            v.push(Ff);
        }
        v.extend(d.iter().cloned());
    }
    let (w, job) = layout(e, o, &v, &cmp::ALL)?;
    o.nontrivial = w.docs.len() > 1;
    o.label(&format!("{} documents", w.docs.len()));
    let h = e.sut.html(&job);
    if h.docs.len() != w.docs.len() {
        return Err(format!("{} html documents instead of {}", h.docs.len(), w.docs.len()));
    }
    Ok(())
}

/// Each document is what it is alone. They start with initialise, so that
/// settings are the same.
fn c20_alone(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let docs = g_docs(s, &Mix { page: 2, gfx: 0, ..MIXED });
    let mut all = vec![];
    let mut alone = vec![];
    for (i, d) in docs.iter().enumerate() {
        let mut v = no_std_ff(d.clone());
        v.push(Init);
        alone.push(encode(&v));
        all.extend(v);
        if i + 1 < docs.len() {
            all.push(Ff);
        }
    }
    let job = send(o, &all);
    o.nontrivial = docs.iter().filter(|d| !d.is_empty()).count() > 1;
    let r = e.sut.record(&job);
    let h = e.sut.html(&job);
    if r.docs.len() != docs.len() || h.docs.len() != docs.len() {
        return Err(format!("{} documents and {} html documents instead of {}", r.docs.len(), h.docs.len(), docs.len()));
    }
    let small = r.docs.iter().map(|d| d.extent()).sum::<u32>() < 3000 && s.chance(1, 3);
    let p = if small { Some(e.sut.picture(&job)) } else { None };
    if let Some(p) = &p {
        if p.docs.len() != docs.len() {
            return Err(format!("{} pictures instead of {}", p.docs.len(), docs.len()));
        }
    }
    let mut errs = 0;
    for (i, j) in alone.iter().enumerate() {
        let a = e.sut.record(j);
        errs += a.errors.len();
        if a.docs[0] != r.docs[i] {
            return Err(format!("document {} differs from the same alone: {}", i, cmp_docs(&a.docs, &r.docs[i..=i])));
        }
        if e.sut.html(j).docs[0] != h.docs[i] {
            return Err(format!("html document {} differs from the same alone", i));
        }
        if let Some(p) = &p {
            let q = e.sut.picture(j);
            crate::canvas::diff(&q.docs[0], &p.docs[i], 0).map_err(|m| format!("picture {} differs from the same alone: {}", i, m))?;
        }
    }
    if r.errors.len() != errs {
        return Err(format!("{} errors, {} alone", r.errors.len(), errs));
    }
    Ok(())
}

fn c20_picture(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let docs = g_docs(s, &Mix { page: 1, ..MIXED });
    let mut v = vec![];
    for (i, d) in docs.iter().enumerate() {
        if i > 0 {
            v.push(Ff);
        }
        v.extend(d.iter().cloned());
    }
    let job = send(o, &v);
    let w = want(&e.tables, &v);
    if height(&w) > 1500 {
        return Ok(());
    }
    o.nontrivial = w.docs.len() > 1;
    picture(e, &w, &job)?;
    let h = e.sut.html(&job);
    super::html::documents(e, &w, &h.docs, &super::html::EVERYTHING)
}

/// Pictures of documents that are very high
fn c20_tower(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let k = 1 + s.n(2);
    let mut v = vec![];
    for i in 0..k {
        if i > 0 {
            v.push(Ff);
        }
        for _ in 0..1 + s.n(3) {
            let n = s.n(4);
            v.extend(g_job(s, n, &Mix { page: 1, ..MIXED }));
            let space = s.u(100, 255) as u8;
            v.push(Spacing(space));
            v.push(FeedLines(s.u(1, 140) as u8));
            if s.chance(1, 2) {
                v.push(Spacing(24));
            }
        }
        v.push(Text(g_word(s, 5)));
        v.push(Lf);
    }
    let job = send(o, &v);
    let w = want(&e.tables, &v);
    let high = height(&w);
    if high > 120_000 {
        return Ok(());
    }
    o.nontrivial = high > 10_000;
    o.label_if(high > 65_535, "more than 65535 dots high");
    picture(e, &w, &job)
}

/// Documents that are long or high, as html as well
fn c20_tall(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let k = 2 + s.n(3);
    let mut v = vec![];
    for i in 0..k {
        if i > 0 {
            v.push(Ff);
        }
        let n = match s.below(4) {
            0 => s.n(4),
            1 => 60 + s.n(20),
            2 => 125 + s.n(10),
            _ => 30 + s.n(400),
        };
        let high = s.chance(1, 3);
        for _ in 0..n {
            match s.below(12) {
                0 => v.push(g_style(s)),
                1 => v.push(g_bit_image(s, 20)),
                2 => v.push(Just(s.below(3) as u8)),
                _ => v.push(Text(g_word(s, 5))),
            }
            v.push(if high { FeedLines(s.u(1, 255) as u8) } else { Lf });
        }
    }
    let (w, job) = layout(e, o, &v, &cmp::ALL)?;
    o.nontrivial = w.docs.iter().any(|d| d.ops.len() > 64 || d.end_y > 20_000);
    o.label_if(w.docs.iter().any(|d| d.end_y > 65_535), "more than 65535 dots high");
    let h = e.sut.html(&job);
    super::html::documents(e, &w, &h.docs, &super::html::EVERYTHING)
}

/// Many documents, each of them with little in it
fn c20_many(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let k = s.one(&[5usize, 17, 40, 260]) + s.n(20);
    let mut v = vec![];
    let mut page = false;
    for i in 0..k {
        if i > 0 {
            if page {
                v.push(StdMode);
            }
            v.push(Ff);
        }
        page = s.chance(1, 12);
        if page {
            v.extend(g_page(s));
        }
        for _ in 0..s.below(4) {
            match s.below(8) {
                0 if !page => v.extend(g_job(s, 1, &Mix { page: 0, ..MIXED })),
                1 => v.push(g_style(s)),
                2 if !page => v.push(Lf),
                3 if !page => v.push(g_just(s)),
                4 if !page => v.push(AbsX(s.below(400) as u16)),
                _ if !page => v.push(Text(g_word(s, 10))),
                _ => {}
            }
        }
    }
    let (w, job) = layout(e, o, &v, &cmp::ALL)?;
    o.nontrivial = w.docs.len() > 4;
    o.label_if(w.docs.len() > 256, "more than 256 documents");
    let h = e.sut.html(&job);
    super::html::documents(e, &w, &h.docs, &super::html::EVERYTHING)?;
    if height(&w) < 8000 && s.chance(1, 12) {
        o.label("as pictures");
        picture(e, &w, &job)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C21

/// Compares everything a job gives with what it gives with insertions
fn unchanged(e: &mut Env, s: &mut Src, base: &[u8], with: &[u8]) -> Res {
    let (a, b) = (e.sut.record(base), e.sut.record(with));
    if a.docs != b.docs {
        return Err(format!("the output changes: {}", cmp_docs(&a.docs, &b.docs)));
    }
    if a.kinds() != b.kinds() {
        return Err(format!("the errors change: {:?}, before {:?}", texts(&b), texts(&a)));
    }
    if s.chance(1, 4) {
        let (a, b) = (e.sut.html(base), e.sut.html(with));
        for (x, y) in a.docs.iter().zip(&b.docs) {
            if super::html::joined(x)? != super::html::joined(y)? {
                return Err("the html changes".into());
            }
        }
    }
    if a.docs.iter().map(|d| d.extent()).sum::<u32>() < 2000 && s.chance(1, 8) {
        let (a, b) = (e.sut.picture(base), e.sut.picture(with));
        for (x, y) in a.docs.iter().zip(&b.docs) {
            crate::canvas::diff(x, y, 0).map_err(|m| format!("the picture changes: {}", m))?;
        }
    }
    Ok(())
}

fn c21_inserted(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let n = 1 + s.len(12);
    let v = coalesce(&g_job(s, n, &Mix { noop: 0, page: 2, ff: 1, ..MIXED }));
    let mut w = vec![];
    let mut count = 0;
    for (i, it) in v.iter().enumerate() {
        let loose = matches!(w.last(), Some(Raw(_))) && matches!(it, Text(_) | Raw(_));
        if !loose && s.chance(1, 3) {
            for _ in 0..1 + s.n(2) {
                // these end the line, so they go where nothing is waiting
                w.push(if s.chance(1, 5) && start_of_line(&v[..i]) { ending_noop(s) } else { g_noop(s) });
                count += 1;
            }
        }
        w.push(it.clone());
    }
    if s.chance(1, 2) {
        w.push(g_noop(s));
        count += 1;
    }
    let job = send(o, &w);
    o.nontrivial = count > 0;
    unchanged(e, s, &encode(&v), &job)
}

/// What ends a line of text and does nothing else: Cancel, questions about
/// stored graphics, dot densities that there are not, settings and data of
/// codes that are not supported
fn ending_noop(s: &mut Src) -> Item {
    match s.below(8) {
        0 => return Cancel,
        1 | 2 => {
            let f = s.one(&[0u8, 48, 4, 52, 64, 80]);
            let n = s.n(3);
            let d = s.bytes(n);
            return Gfx(s.chance(1, 4), 48, f, d);
        }
        3 => {
            let (x, y) = (s.u(48, 52) as u8, s.u(48, 52) as u8);
            if x != y {
                return Gfx(false, 48, s.one(&[1u8, 49]), vec![x, y]);
            }
        }
        _ => {}
    }
    let (cn, f) = s.one(&[
        (48u8, 65u8), (48, 66), (48, 67), (48, 69), (48, 70), (50, 65), (51, 67), (51, 71), (52, 67), (52, 71), (52, 72),
        (53, 66), (53, 67), (53, 69), (54, 66), (54, 67),
    ]);
    Code2d(cn, f, vec![s.bbyte(), s.bbyte()])
}

/// Nothing is waiting to be printed after these items
fn start_of_line(v: &[Item]) -> bool {
    let mut settled = true;
    for i in v {
        settled = settles(i) || (settled && !matches!(i, Text(_) | Cr | Ht | Raw(_)));
    }
    settled
}

/// Settings that are in force already, as the model knows them
fn in_force(s: &mut Src, st: &State, settled: bool) -> Option<Item> {
    let bit = |s: &mut Src, on: bool| s.below(128) as u8 * 2 + on as u8;
    let number = |c: Rgb, s: &mut Src| -> Vec<u8> {
        vec![match c {
            PAPER => s.one(&[48u8, 0]),
            RED => s.one(&[50u8, 2]),
            BLUE => s.one(&[51u8, 3]),
            _ => s.one(&[49u8, 1]),
        }]
    };
    let font = |f: FontM, s: &mut Src| match f {
        FontM::A => s.one(&[0u8, 48]),
        FontM::B => s.one(&[1u8, 49]),
        FontM::C => s.one(&[2u8, 50]),
        FontM::D => s.one(&[3u8, 51]),
        FontM::E => s.one(&[4u8, 52]),
        FontM::SpecialA => 97,
        FontM::SpecialB => 98,
    };
    let n = if settled { 24 } else { 12 };
    Some(match s.below(n) {
        0 => Emphasis(bit(s, st.bold)),
        1 => Strike(bit(s, st.strike)),
        2 => Italic(bit(s, st.italic)),
        3 => Upside(bit(s, st.upside)),
        4 => Underline(st.ul + s.one(&[0u8, 48])),
        5 => Font(font(st.font, s)),
        6 => CharSize(((st.wm - 1) << 4 | (st.hm - 1)) as u8),
        7 => Table(st.table),
        8 => Charset(st.set),
        9 => Effects(48, number(st.fg, s)),
        10 => Effects(49, number(st.bg, s)),
        11 => {
            // font, bold, size and underline together, when one value says them all
            if ![FontM::A, FontM::B].contains(&st.font) || st.wm > 2 || st.hm > 2 || st.ul > 1 {
                return None;
            }
            let b = |c: bool, n: u8| if c { n } else { 0 };
            PrintMode(b(st.font == FontM::B, 1) | b(st.bold, 8) | b(st.hm == 2, 16) | b(st.wm == 2, 32) | b(st.ul > 0, 128))
        }
        12 => Just(match st.just {
            crate::model::Just::Left => s.one(&[0u8, 48]),
            crate::model::Just::Center => s.one(&[1u8, 49]),
            crate::model::Just::Right => s.one(&[2u8, 50]),
        }),
        13 => Spacing(st.spacing as u8),
        14 => BarHeight(st.bar_h as u8),
        15 => BarWidth(st.bar_w as u8),
        16 => BarFont(font(st.bar_font, s)),
        17 => Hri(st.hri + s.one(&[0u8, 48])),
        18 => Code2d(49, 65, vec![st.qr_model, 0]),
        19 => Code2d(49, 67, vec![st.qr_size as u8]),
        20 => Code2d(49, 69, vec![st.qr_level + s.one(&[0u8, 48])]),
        21 if !st.page => StdMode,
        22 => {
            let mut v: Vec<u8> = st.tabs.iter().map(|t| *t as u8).collect();
            if v.contains(&0) {
                return None;
            }
            v.push(0);
            Tab(v)
        }
        _ => {
            if st.spacing != 24 {
                return None;
            }
            DefaultSpacing
        }
    })
}

fn c21_settings(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let n = 1 + s.len(12);
    let mut v = vec![];
    for _ in 0..n {
        if s.chance(1, 3) {
            v.push(g_setting(s));
        }
        v.extend(g_job(s, 1, &Mix { page: 1, ff: 1, ..MIXED }));
    }
    let v = coalesce(&v);
    let mut w = vec![];
    let mut count = 0;
    {
        let mut m = Model::new(&e.tables);
        let mut settled = true;
        for it in &v {
            let loose = matches!(w.last(), Some(Raw(_))) && matches!(it, Text(_) | Raw(_));
            if !loose && s.chance(1, 2) {
                if let Some(x) = in_force(s, &m.s, settled) {
                    w.push(x);
                    count += 1;
                }
            }
            w.push(it.clone());
            m.step(it);
            settled = settles(it) || (settled && !matches!(it, Text(_) | Cr | Ht | Raw(_)));
        }
    }
    let job = send(o, &w);
    o.nontrivial = count > 0;
    unchanged(e, s, &encode(&v), &job)
}

/// Lines made of many pieces, with commands without effect between them
fn c21_pieces(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let lines = 1 + s.n(3);
    let mut v = vec![Just(s.below(3) as u8)];
    let longest = s.one(&[3usize, 8, 20]);
    for _ in 0..lines {
        let n = 8 + s.len(60);
        for _ in 0..n {
            v.push(match s.below(12) {
                0 => Ht,
                1 => g_style(s),
                2..=4 => g_look(s),
                5 => Text(b" ".to_vec()),
                _ => Text(g_word(s, longest)),
            });
        }
        if s.chance(1, 2) {
            v.push(Lf);
        }
    }
    let v = coalesce(&v);
    let mut m = Model::new(&e.tables);
    let mut w = vec![];
    let mut count = 0;
    let often = s.one(&[2u64, 8, 30]);
    for it in &v {
        if s.chance(1, often) {
            if let Some(x) = if s.chance(3, 4) { Some(g_noop(s)) } else { in_force(s, &m.s, false) } {
                w.push(x);
                count += 1;
            }
        }
        w.push(it.clone());
        m.step(it);
    }
    let job = send(o, &w);
    o.nontrivial = count > 0;
    unchanged(e, s, &encode(&v), &job)
}

/// Every command without effect in the middle of a line
fn c21_each(e: &mut Env, s: &mut Src, o: &mut Obs) -> Res {
    let n = s.index as u8;
    let it = match s.index >> 8 {
        0 => Periph(n),
        1 => Sensor(3, n),
        2 => Sensor(4, n),
        3 => Sensor(5, n),
        4 => PrinterId(n),
        5 => Pulse(n, n / 2, 255 - n),
        6 => Smooth(n),
        7 => Response(n, 48, vec![1, 2, 3, 4]),
        8 => Response(49, n, vec![27, 64]),
        9 => Effects(50, vec![n]),
        _ => Effects(if n == 48 || n == 49 { 51 } else { n }, vec![51]),
    };
    let (before, mut after) = (
        vec![Just(s.below(3) as u8), CharSize(s.one(&[0u8, 0x11])), Text(b"some words of".to_vec())],
        vec![Emphasis(1), Text(b" text that fill more than one line of the paper".to_vec()), Lf, Barcode(69, b"A1".to_vec())],
    );
    if s.chance(1, 2) {
        after.insert(0, Underline(1));
    }
    let base = [before.clone(), after.clone()].concat();
    let with = [before, vec![it], after].concat();
    let job = send(o, &with);
    o.nontrivial = true;
    unchanged(e, s, &encode(&base), &job)
}

pub fn props() -> Vec<Prop<Env>> {
    vec![
        Prop {
            id: "C14",
            rule: "every case initialises after settings or printing and prints afterwards; distinct by the bytes sent",
            assumptions: &["the horizontal position and the paper position stay, as on a printer"],
            subs: vec![
                sub("model", c14_model, 90_000, 400_000),
                sub("as_new", c14_as_new, 60_000, 400_000),
                all("each", c14_each, 52 * 52),
            ],
        },
        Prop {
            id: "C16",
            rule: "a case is non-trivial when the job has more than 20 bytes, or other jobs are run before or at the same time; distinct by the bytes sent",
            assumptions: &["threads are scheduled by the operating system, schedules are sampled"],
            subs: vec![
                slow("again", c16_again, 1200, 70_000),
                slow("process", c16_process, 1_500, 30_000),
                slow("after", c16_after, 300, 15_000),
                slow("parser", c16_parser, 42_000, 500_000),
                slow("threads", c16_threads, 80, 4000),
            ],
        },
        Prop {
            id: "C18",
            rule: "a case is non-trivial when there are bad commands in it, for valid jobs when there are more than three commands; distinct by the bytes sent",
            assumptions: &[
                "an unknown command reaches up to the next command that is known",
                "a bad bar code ends the line of text before it as a good one does",
            ],
            subs: vec![
                sub("valid", c18_valid, 16_000, 300_000),
                sub("inserted", c18_inserted, 36_000, 400_000),
                sub("kinds", c18_kinds, 4_000, 100_000),
                sub("many", c18_many, 3_000, 30_000),
                sub("outside", c18_outside, 4_500, 10_000),
                sub("beyond", c18_beyond, 10_000, 100_000),
                sub("page", c18_page, 3_000, 40_000),
            ],
        },
        Prop {
            id: "C20",
            rule: "a case is non-trivial when it has more than one document (of which more than one has content, where they are compared with themselves alone); distinct by the bytes sent",
            assumptions: &["a form feed in page mode prints the page and does not end the document"],
            subs: vec![
                slow("model", c20_model, 12_000, 300_000),
                slow("alone", c20_alone, 2000, 120_000),
                slow("tall", c20_tall, 10_000, 100_000),
                slow("many", c20_many, 1_500, 40_000),
                slow("picture", c20_picture, 2_400, 20_000),
                slow("tower", c20_tower, 60, 4_000),
            ],
        },
        Prop {
            id: "C21",
            rule: "a case is non-trivial when at least one command was inserted; distinct by the bytes sent",
            assumptions: &["settings that end a line of text are repeated where no line is open"],
            subs: vec![
                sub("inserted", c21_inserted, 11_000, 350_000),
                sub("settings", c21_settings, 11_000, 350_000),
                sub("pieces", c21_pieces, 5_000, 100_000),
                all("each", c21_each, 11 * 256),
            ],
        },
    ]
}
