//! The reference code tables and international sets
use std::collections::HashMap;

pub struct Tables {
    pages: HashMap<u8, Vec<String>>,
    sets: HashMap<u8, Vec<(u8, String)>>,
}

fn cps(s: &str) -> String {
    if s == "-" {
        return String::new();
    }
    s.split('+').map(|h| char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap()).collect()
}

impl Tables {
    pub fn load() -> Tables {
        let (mut pages, mut sets) = (HashMap::new(), HashMap::new());
        for line in include_str!("../data/tables.txt").lines() {
            let mut w = line.split(' ');
            match w.next() {
                Some("page") => {
                    let n: u8 = w.next().unwrap().parse().unwrap();
                    let t: Vec<String> = w.map(cps).collect();
                    assert_eq!(t.len(), 256);
                    pages.insert(n, t);
                }
                Some("set") => {
                    let n: u8 = w.next().unwrap().parse().unwrap();
                    let t = w
                        .map(|x| {
                            let (b, c) = x.split_once('=').unwrap();
                            (u8::from_str_radix(b, 16).unwrap(), cps(c))
                        })
                        .collect();
                    sets.insert(n, t);
                }
                _ => {}
            }
        }
        Tables { pages, sets }
    }
    pub fn decode(&self, page: u8, set: u8, bytes: &[u8]) -> String {
        if page == 255 {
            return String::from_utf8_lossy(bytes).to_string();
        }
        let t = self.pages.get(&page).unwrap_or(&self.pages[&0]);
        let s = self.sets.get(&set);
        let mut o = String::new();
        for b in bytes {
            match s.and_then(|s| s.iter().find(|x| x.0 == *b)) {
                Some(x) => o.push_str(&x.1),
                None => o.push_str(&t[*b as usize]),
            }
        }
        o
    }
    pub fn pages(&self) -> Vec<u8> {
        let mut v: Vec<u8> = self.pages.keys().copied().collect();
        v.sort();
        v
    }
    pub fn sets(&self) -> Vec<u8> {
        let mut v: Vec<u8> = self.sets.keys().copied().collect();
        v.sort();
        v
    }
    pub fn changed_positions(&self, set: u8) -> Vec<u8> {
        self.sets.get(&set).map(|s| s.iter().map(|x| x.0).collect()).unwrap_or_default()
    }
}
