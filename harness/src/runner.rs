//! Runs the checks of one property over worker processes, writes the evidence
//! file and the replay file of a violation.
use crate::engine::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::path::PathBuf;
use std::time::{Duration, Instant};

thread_local! {
    static PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn take_panic() -> String {
    PANIC.with(|p| std::mem::take(&mut *p.borrow_mut()))
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let text = format!("{}", info).replace('\n', " ");
        PANIC.with(|p| *p.borrow_mut() = text);
    }));
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

/// Signatures listed as known findings of a property
fn known_findings(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix(&format!("known: property={} sig=", id)) {
            let (sig, what) = rest.split_once(' ').unwrap_or((rest, ""));
            v.push((sig.to_string(), what.to_string()));
        }
    }
    v
}

fn signature(msg: &str) -> Option<&str> {
    msg.strip_prefix("[sig:").and_then(|r| r.split_once(']')).map(|x| x.0)
}

fn tier() -> String {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough".into(),
        _ => "quick".into(),
    }
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1) as u64
}

fn cases<E>(s: &Sub<E>, tier: &str) -> u64 {
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1.0);
    if s.exhaustive {
        if tier == "thorough" { s.thorough } else { s.quick }
    } else {
        ((if tier == "thorough" { s.thorough } else { s.quick }) as f64 * scale) as u64
    }
}

struct SubStat {
    evals: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    wall: f64,
    known: BTreeMap<String, u64>,
    fail: Option<(u64, Vec<u64>, String)>,
}

fn worker<E>(prop: &Prop<E>, new_env: fn() -> E, tier: &str, seed: u64, w: u64, n: u64, out: &str, only: Option<&str>) {
    let mut env = new_env();
    let known = known_findings(prop.id);
    let mut progress = std::fs::File::create(format!("{}.progress", out)).unwrap();
    let mut text = String::new();
    let mut hashes: Vec<u8> = vec![];
    for (si, sub) in prop.subs.iter().enumerate() {
        if only.map_or(false, |o| o != sub.name) {
            continue;
        }
        let total = cases(sub, tier);
        let start = Instant::now();
        let mut st = SubStat {
            evals: 0, nontrivial: HashSet::new(), labels: BTreeMap::new(), samples: vec![], wall: 0.0,
            known: BTreeMap::new(), fail: None,
        };
        let mut i = w;
        while i < total {
            use std::os::unix::fs::FileExt;
            let _ = progress.write_all_at(format!("{:4} {:20}", si, i).as_bytes(), 0);
            let mut src = Src::random(seed, sub.name, i);
            let mut obs = Obs::default();
            obs.want_desc = w == 0 && st.samples.len() < 2;
            let r = run_case(&mut env, sub.f, &mut src, &mut obs);
            st.evals += 1;
            if obs.nontrivial {
                let key = obs.key.unwrap_or_else(|| {
                    let mut h = i;
                    for c in &src.rec {
                        h = h.rotate_left(5).wrapping_mul(0x100000001b3) ^ c;
                    }
                    h
                });
                st.nontrivial.insert(key);
                if obs.want_desc {
                    st.samples.push(format!("case {}: {} job={}", i, obs.desc.trim(), {
                        let h = hex(&obs.job);
                        if h.len() > 400 { format!("{}...({} bytes)", &h[..400], obs.job.len()) } else { h }
                    }));
                }
            }
            for (l, c) in obs.labels {
                *st.labels.entry(l).or_insert(0) += c;
            }
            if let Err(msg) = r {
                if let Some(sig) = signature(&msg) {
                    if known.iter().any(|k| k.0 == sig) {
                        *st.known.entry(sig.to_string()).or_insert(0) += 1;
                        i += n;
                        continue;
                    }
                }
                let small = shrink(&mut env, sub.f, i, src.rec, 3000);
                st.fail = Some((i, small, msg));
                break;
            }
            i += n;
        }
        st.wall = start.elapsed().as_secs_f64();
        let _ = writeln!(text, "SUB {} {} {}", si, st.evals, st.wall);
        for (l, c) in &st.labels {
            let _ = writeln!(text, "LABEL {} {} {}", si, c, l);
        }
        for (l, c) in &st.known {
            let _ = writeln!(text, "KNOWN {} {} {}", si, c, l);
        }
        for s in &st.samples {
            let _ = writeln!(text, "SAMPLE {} {}", si, s.replace('\n', " | "));
        }
        if let Some((i, c, msg)) = &st.fail {
            let cs: Vec<String> = c.iter().map(|x| x.to_string()).collect();
            let _ = writeln!(text, "FAIL {} {} {} {}", si, i, if cs.is_empty() { "-".into() } else { cs.join(",") }, msg.replace('\n', " | "));
        }
        hashes.extend_from_slice(&(si as u64).to_le_bytes());
        hashes.extend_from_slice(&(st.nontrivial.len() as u64).to_le_bytes());
        for h in &st.nontrivial {
            hashes.extend_from_slice(&h.to_le_bytes());
        }
        if st.fail.is_some() {
            break;
        }
    }
    let _ = progress.flush();
    std::fs::write(format!("{}.hash", out), hashes).unwrap();
    std::fs::write(out, text + "END\n").unwrap();
}

/// Start of messages of cases that could not be shrunk
const BY_SEED: &str = "the program";
/// No case takes a second
const STUCK: Duration = Duration::from_secs(100);

/// The program itself with its memory limited, and its time if not 0
fn limited(exe: &std::path::Path, seconds: u64) -> std::process::Command {
    let mut c = std::process::Command::new("bash");
    let time = if seconds > 0 { format!("ulimit -t {}; ", seconds) } else { String::new() };
    c.env("RUST_BACKTRACE", "0");
    c.args(["-c", &format!("ulimit -v 6000000; ulimit -c 0; {}exec \"$0\" \"$@\"", time)]).arg(exe);
    c
}

const HOLDS: &str = "holds on this case";

/// Whether a case fails, ends the process or does not end, in a process of
/// its own as well
fn again(exe: &std::path::Path, id: &str, sub: &str, index: u64) -> bool {
    let out = limited(exe, 60)
        .args(["one", id, sub, &index.to_string()])
        .stderr(std::process::Stdio::null())
        .output();
    match out {
        Ok(o) => o.status.code() != Some(2) && !String::from_utf8_lossy(&o.stdout).contains(HOLDS),
        Err(_) => false,
    }
}

/// The check and the case a worker was at
fn place(out: &std::path::Path) -> Option<(usize, u64)> {
    let text = std::fs::read_to_string(format!("{}.progress", out.display())).unwrap_or_default();
    let mut it = text.split_whitespace();
    Some((it.next()?.parse().ok()?, it.next()?.parse().ok()?))
}

fn check<E>(prop: &Prop<E>, new_env: fn() -> E, only: Option<&str>) -> i32 {
    let tier = tier();
    let seed = seed();
    let start = Instant::now();
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16) as u64;
    let tmp = std::env::temp_dir().join(format!("vt-{}-{}", prop.id, std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let exe = std::env::current_exe().unwrap();
    let mut kids = vec![];
    for w in 0..n {
        let out = tmp.join(format!("w{}", w));
        let kid = limited(&exe, 0)
            .args(["worker", prop.id, &tier, &seed.to_string(), &w.to_string(), &n.to_string()])
            .arg(&out)
            .arg(only.unwrap_or("-"))
            .stdout(std::process::Stdio::null())
            .stderr(std::fs::File::create(tmp.join(format!("w{}.err", w))).unwrap())
            .spawn()
            .unwrap();
        kids.push((w, out, kid, None::<std::process::ExitStatus>));
    }
    let mut seen = vec![(String::new(), Instant::now()); n as usize];
    // Workers that this process ended
    let mut ended: Vec<u64> = vec![];
    let limit = Duration::from_secs(if tier == "thorough" { 6 * 3600 } else { 840 });
    let mut broken: Option<String> = None;
    // (sub, index, choices, message)
    let mut fails: Vec<(usize, u64, Vec<u64>, String)> = vec![];
    let mut give_up = false;
    loop {
        let mut running = 0;
        for k in kids.iter_mut() {
            if k.3.is_none() {
                match k.2.try_wait().unwrap() {
                    Some(s) => k.3 = Some(s),
                    None => {
                        running += 1;
                        let now = std::fs::read_to_string(format!("{}.progress", k.1.display())).unwrap_or_default();
                        let last = &mut seen[k.0 as usize];
                        if last.0 != now {
                            *last = (now, Instant::now());
                        } else if last.1.elapsed() > STUCK {
                            let _ = k.2.kill();
                            k.3 = Some(k.2.wait().unwrap());
                            ended.push(k.0);
                            match place(&k.1) {
                                // One such case is enough
                                Some((si, ci)) if again(&exe, prop.id, prop.subs[si].name, ci) => {
                                    fails.push((si, ci, vec![], format!("{} did not come to an end", BY_SEED)));
                                    give_up = true;
                                    break;
                                }
                                at => broken = Some(format!("worker {} was stuck at {:?}", k.0, at)),
                            }
                        }
                    }
                }
            }
        }
        if running == 0 {
            break;
        }
        if start.elapsed() > limit {
            broken = Some("time limit reached without an answer".to_string());
            give_up = true;
        }
        if give_up {
            for k in kids.iter_mut().filter(|k| k.3.is_none()) {
                let _ = k.2.kill();
                k.3 = Some(k.2.wait().unwrap());
                ended.push(k.0);
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let mut stats: Vec<SubStat> = prop.subs.iter().map(|_| SubStat {
        evals: 0, nontrivial: HashSet::new(), labels: BTreeMap::new(), samples: vec![], wall: 0.0,
        known: BTreeMap::new(), fail: None,
    }).collect();
    for (w, out, _, status) in &kids {
        let status = status.unwrap();
        let text = std::fs::read_to_string(out).unwrap_or_default();
        if !status.success() || !text.ends_with("END\n") {
            use std::os::unix::process::ExitStatusExt;
            if ended.contains(w) {
                continue;
            }
            let sig = status.signal().unwrap_or(0);
            let err = std::fs::read_to_string(tmp.join(format!("w{}.err", w))).unwrap_or_default();
            // A crash of the process (abort, stack overflow, bad memory access)
            // or an end of it that is not the worker's own
            let own = status.code() == Some(101);
            match place(out) {
                Some((si, ci)) if [4, 6, 7, 8, 11].contains(&sig) => {
                    fails.push((si, ci, vec![], format!("{} ended by signal {}: {}", BY_SEED, sig, err.trim().replace('\n', " "))));
                }
                Some((si, ci)) if sig == 0 && !own && again(&exe, prop.id, prop.subs[si].name, ci) => {
                    fails.push((si, ci, vec![], format!("{} ended with {:?}", BY_SEED, status)));
                }
                at => broken = Some(format!("worker {} ended with {:?} at {:?}: {}", w, status, at, err.trim())),
            }
            continue;
        }
        for line in text.lines() {
            let mut p = line.splitn(3, ' ');
            let kind = p.next().unwrap();
            if kind == "END" {
                continue;
            }
            let si: usize = p.next().unwrap().parse().unwrap();
            let rest = p.next().unwrap_or("");
            match kind {
                "SUB" => {
                    let (a, b) = rest.split_once(' ').unwrap();
                    stats[si].evals += a.parse::<u64>().unwrap();
                    stats[si].wall = stats[si].wall.max(b.parse().unwrap());
                }
                "LABEL" | "KNOWN" => {
                    let (a, b) = rest.split_once(' ').unwrap();
                    let m = if kind == "LABEL" { &mut stats[si].labels } else { &mut stats[si].known };
                    *m.entry(b.to_string()).or_insert(0) += a.parse::<u64>().unwrap();
                }
                "SAMPLE" => stats[si].samples.push(rest.to_string()),
                "FAIL" => {
                    let mut q = rest.splitn(3, ' ');
                    let i: u64 = q.next().unwrap().parse().unwrap();
                    let c = q.next().unwrap();
                    let msg = q.next().unwrap_or("").to_string();
                    let cs = if c == "-" { vec![] } else { c.split(',').map(|x| x.parse().unwrap()).collect() };
                    fails.push((si, i, cs, msg));
                }
                _ => {}
            }
        }
        let h = std::fs::read(format!("{}.hash", out.display())).unwrap_or_default();
        let mut words = h.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap()));
        while let (Some(si), Some(cnt)) = (words.next(), words.next()) {
            for _ in 0..cnt {
                stats[si as usize].nontrivial.insert(words.next().unwrap());
            }
        }
    }
    let _ = std::fs::remove_dir_all(&tmp);
    fails.sort_by_key(|f| (f.0, f.1));

    // evidence
    let evals: u64 = stats.iter().map(|s| s.evals).sum();
    let nontrivial: u64 = stats.iter().map(|s| s.nontrivial.len() as u64).sum();
    let mut subs = vec![];
    let mut samples = vec![];
    for (s, st) in prop.subs.iter().zip(&stats) {
        let labels: Vec<String> = st.labels.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
        subs.push(format!(
            "{}: {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"enumerates_finite_space\": {}, \"wall_s\": {:.2}, \"classes\": {{{}}}}}",
            js(s.name), st.evals, st.nontrivial.len(), s.exhaustive, st.wall, labels.join(", ")
        ));
        for x in &st.samples {
            samples.push(js(&format!("{}: {}", s.name, x)));
        }
    }
    let known = known_findings(prop.id);
    let mut known_hits = vec![];
    for (sig, what) in &known {
        let c: u64 = stats.iter().filter_map(|s| s.known.get(sig)).sum();
        if c > 0 {
            println!("KNOWN-FINDING: property={} {} ({} cases)", prop.id, what, c);
        } else {
            println!("KNOWN-FINDING: property={} {}", prop.id, what);
        }
        known_hits.push(format!("{}: {}", js(sig), c));
    }
    let assumptions: Vec<String> = prop.assumptions.iter().map(|a| js(a)).collect();
    let ev = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {},\n  \"checks\": {{{}}},\n  \"known_findings_hit\": {{{}}},\n  \"samples\": [{}]}},\n \"assumptions\": [{}],\n \"wall_s\": {:.2}, \"violations\": {}}}\n",
        js(prop.id), js(&tier), seed as i64, evals, nontrivial, js(prop.rule), subs.join(",\n   "), known_hits.join(", "),
        samples.join(",\n   "), assumptions.join(", "), start.elapsed().as_secs_f64(), fails.len()
    );
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", prop.id)), ev).unwrap();
    for (s, st) in prop.subs.iter().zip(&stats) {
        println!("{} {}: {} cases, {} distinct non-trivial, {:.1}s", prop.id, s.name, st.evals, st.nontrivial.len(), st.wall);
    }
    if let Some((si, index, choices, msg)) = fails.first() {
        let sub = &prop.subs[*si];
        let (mut desc, mut job, mut msg2) = (String::new(), vec![], msg.clone());
        let crashed = msg.starts_with(BY_SEED);
        if !crashed {
            let mut env = new_env();
            let mut src = Src::replay(choices, *index);
            let mut obs = Obs::default();
            obs.want_desc = true;
            if let Err(m) = run_case(&mut env, sub.f, &mut src, &mut obs) {
                msg2 = m;
            }
            desc = obs.desc;
            job = obs.job;
        }
        let dir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}.json", prop.id, sub.name));
        let cs: Vec<String> = choices.iter().map(|x| x.to_string()).collect();
        let body = format!(
            "{{\"property\": {},\n \"check\": {},\n \"seed\": {}, \"index\": {}, \"from_seed\": {},\n \"choices\": [{}],\n \"message\": {},\n \"case\": {},\n \"job_hex\": {},\n \"how_to_replay\": {}}}\n",
            js(prop.id), js(sub.name), seed as i64, index, crashed, cs.join(","), js(&msg2), js(&desc), js(&hex(&job)),
            js(&format!("bash /verif/check.sh replay {}", path.display()))
        );
        std::fs::write(&path, body).unwrap();
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        println!("  check {} case {}: {}", sub.name, index, msg2);
        for l in desc.lines().take(40) {
            println!("  {}", l);
        }
        return 1;
    }
    if let Some(b) = broken {
        eprintln!("error: {}", b);
        return 2;
    }
    println!("{} holds on {} cases ({} distinct non-trivial) in {:.1}s", prop.id, evals, nontrivial, start.elapsed().as_secs_f64());
    0
}

/// A number list or a value of a key in the replay file written above
fn field<'a>(text: &'a str, key: &str) -> &'a str {
    let at = text.find(&format!("\"{}\": ", key)).expect("field") + key.len() + 4;
    &text[at..]
}

fn replay<E>(props: &[Prop<E>], new_env: fn() -> E, path: &str) -> i32 {
    let text = std::fs::read_to_string(path).expect("replay file");
    let s = |k: &str| field(&text, k)[1..].split('"').next().unwrap().to_string();
    let num = |k: &str| field(&text, k).split(|c: char| !(c.is_ascii_digit() || c == '-')).next().unwrap().parse::<i64>().unwrap();
    let (id, name) = (s("property"), s("check"));
    let list = field(&text, "choices")[1..].split(']').next().unwrap();
    let choices: Vec<u64> = list.split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap()).collect();
    let index = num("index") as u64;
    let Some(sub) = props.iter().find(|p| p.id == id).and_then(|p| p.subs.iter().find(|s| s.name == name)) else {
        eprintln!("no check {} {}", id, name);
        return 2;
    };
    let mut src = if field(&text, "from_seed").starts_with("true") {
        Src::random(num("seed") as u64, sub.name, index)
    } else {
        Src::replay(&choices, index)
    };
    one(sub, new_env, &mut src, &id)
}

fn one<E>(sub: &Sub<E>, new_env: fn() -> E, src: &mut Src, id: &str) -> i32 {
    let mut env = new_env();
    let mut obs = Obs::default();
    obs.want_desc = true;
    let r = run_case(&mut env, sub.f, src, &mut obs);
    println!("{}", obs.desc);
    println!("job: {}", hex(&obs.job));
    println!("labels: {:?} nontrivial: {}", obs.labels, obs.nontrivial);
    match r {
        Ok(()) => {
            println!("{} {} {}", id, sub.name, HOLDS);
            0
        }
        Err(m) => {
            println!("{} {} is violated: {}", id, sub.name, m);
            1
        }
    }
}

pub fn main<E>(props: Vec<Prop<E>>, new_env: fn() -> E) -> ! {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let a = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no property {}", id);
        std::process::exit(2)
    });
    let code = match a(1) {
        "check" => check(find(a(2)), new_env, args.get(3).map(|s| s.as_str())),
        "worker" => {
            let only = if a(8) == "-" { None } else { Some(a(8)) };
            // deep recursion is not expected, but the main thread's stack is small
            worker(find(a(2)), new_env, a(3), a(4).parse().unwrap(), a(5).parse().unwrap(), a(6).parse().unwrap(), a(7), only);
            0
        }
        "replay" => replay(&props, new_env, a(2)),
        "one" => {
            let p = find(a(2));
            let sub = p.subs.iter().find(|s| s.name == a(3)).expect("sub check");
            let index = a(4).parse().unwrap();
            one(sub, new_env, &mut Src::random(seed(), sub.name, index), p.id)
        }
        "list" => {
            for p in &props {
                for s in &p.subs {
                    println!("{} {} {} {}", p.id, s.name, s.quick, s.thorough);
                }
            }
            0
        }
        _ => {
            eprintln!("usage: check ID [SUB] | replay FILE | one ID SUB INDEX | list");
            2
        }
    };
    std::process::exit(code)
}
