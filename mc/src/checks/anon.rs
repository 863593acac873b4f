//! C19: the anonymizer as a state machine.
use super::*;
use crate::alpha::*;
use std::collections::{HashMap, HashSet};
use std::net::IpAddr;
use webrtc_sdp::address::{Address, AddressType, ExplicitlyTypedAddress as Typed};
use webrtc_sdp::anonymizer::StatefulSdpAnonymizer as Anon;

pub struct Masks;
pub static C19: Masks = Masks;

/// The kinds of values; the entry points of one kind share a map.
const KINDS: [&str; 8] = ["ip", "host", "port", "origin-user", "ice-password", "ice-user", "fingerprint", "cname"];
const ENTRIES: &[(&str, usize)] = &[
    ("mask_ip", 0),
    ("mask_address/ip", 0),
    ("mask_typed_address/ip", 0),
    ("mask_host", 1),
    ("mask_address/name", 1),
    ("mask_typed_address/name4", 1),
    ("mask_typed_address/name6", 1),
    ("mask_port", 2),
    ("mask_origin_user", 3),
    ("mask_ice_password", 4),
    ("mask_ice_user", 5),
    ("mask_cert_finger_print", 6),
    ("mask_cname", 7),
];
/// The values of each kind. Several look like masked values of their own kind.
const VALUES: [&[&str]; 8] = [
    &["10.0.0.1", "0.0.0.1", "::1", "0.0.0.2", "::2", "::a00:1"],
    &["a.example", "fqdn-00000001", "fqdn-00000002", ""],
    &["1", "2", "0", "65535"],
    &["-", "origin-user-00000001", "origin-user-00000002", "a"],
    &["a", "ice-password-00000001", "ice-password-00000002", "b"],
    &["a", "ice-user-00000001", "ice-user-00000002", "A"],
    &["", "0", "0,0,0,0,0,0,0,1", "0,0,0,0,0,0,0,2"],
    &["a", "cname-00000001", "cname-00000002", "a "],
];
fn bytes(v: &str) -> Vec<u8> {
    v.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}
/// Calls an entry point; the result as a text, with family and declared type checked.
fn call(a: &mut Anon, entry: usize, v: &str) -> Result<String, String> {
    let ip = || v.parse::<IpAddr>().unwrap();
    let fam = |x: &IpAddr| {
        if x.is_ipv4() == ip().is_ipv4() {
            Ok(x.to_string())
        } else {
            Err(format!("{v} is masked as {x} of the other family"))
        }
    };
    trans(1);
    match ENTRIES[entry].0 {
        "mask_ip" => fam(&a.mask_ip(&ip())),
        "mask_address/ip" => match a.mask_address(&Address::Ip(ip())) {
            Address::Ip(i) => fam(&i),
            o => Err(format!("{v} is masked as {o:?}")),
        },
        "mask_typed_address/ip" => match a.mask_typed_address(&Typed::Ip(ip())) {
            Typed::Ip(i) => fam(&i),
            o => Err(format!("{v} is masked as {o:?}")),
        },
        "mask_host" => Ok(a.mask_host(v)),
        "mask_address/name" => match a.mask_address(&Address::Fqdn(v.into())) {
            Address::Fqdn(d) => Ok(d),
            o => Err(format!("{v} is masked as {o:?}")),
        },
        n @ ("mask_typed_address/name4" | "mask_typed_address/name6") => {
            let t = if n.ends_with('4') { AddressType::IpV4 } else { AddressType::IpV6 };
            match a.mask_typed_address(&Typed::Fqdn { address_type: t, domain: v.into() }) {
                Typed::Fqdn { address_type, domain } if address_type == t => Ok(domain),
                o => Err(format!("{v} of type {t} is masked as {o:?}")),
            }
        }
        "mask_port" => Ok(a.mask_port(v.parse().unwrap()).to_string()),
        "mask_origin_user" => Ok(a.mask_origin_user(v)),
        "mask_ice_password" => Ok(a.mask_ice_password(v)),
        "mask_ice_user" => Ok(a.mask_ice_user(v)),
        "mask_cert_finger_print" => Ok(format!("{:?}", a.mask_cert_finger_print(&bytes(v)))),
        "mask_cname" => Ok(a.mask_cname(v)),
        o => Err(format!("unknown entry point {o}")),
    }
}
/// The model: one injective partial map per kind.
#[derive(Default)]
struct Model {
    fwd: HashMap<(usize, String), String>,
    back: HashMap<(usize, String), String>,
}
impl Model {
    fn see(&mut self, entry: usize, v: &str, m: String) -> Result<(), String> {
        let k = ENTRIES[entry].1;
        if let Some(o) = self.fwd.get(&(k, v.to_string())) {
            return if *o == m {
                Ok(())
            } else {
                Err(format!("the {} {v:?} was masked as {o:?} and is now masked as {m:?}", KINDS[k]))
            };
        }
        if let Some(o) = self.back.get(&(k, m.clone())) {
            return Err(format!("the {} values {o:?} and {v:?} are both masked as {m:?}", KINDS[k]));
        }
        self.fwd.insert((k, v.into()), m.clone());
        self.back.insert((k, m), v.into());
        Ok(())
    }
    fn key(&self) -> Vec<(&(usize, String), &String)> {
        let mut k: Vec<_> = self.fwd.iter().collect();
        k.sort();
        k
    }
}
/// The same history with other values: equal ones stay equal, and a family stays.
#[derive(Default)]
struct Renamed(HashMap<(usize, String), String>);
impl Renamed {
    fn get(&mut self, entry: usize, v: &str) -> String {
        let n = self.0.len() as u32 + 70_000;
        let k = ENTRIES[entry].1;
        let new = || match k {
            0 if v.contains(':') => IpAddr::from((0xfd00_u128 << 112 | u128::from(n)).to_be_bytes()).to_string(),
            0 => IpAddr::from((0xc000_0000 + n).to_be_bytes()).to_string(),
            2 => n.to_string(),
            6 => [&n.to_be_bytes()[..], &[9; 16]].concat().iter().map(|b| b.to_string()).collect::<Vec<_>>().join(","),
            _ => format!("zz{n}"),
        };
        self.0.entry((k, v.to_string())).or_insert_with(new).clone()
    }
}
fn reveals(en: usize, v: &str, r: &str, o: &str) -> String {
    format!("the {} {v:?} is masked as {r:?}, another value in its place as {o:?}", KINDS[ENTRIES[en].1])
}
/// All (entry, value) operations with up to `n` values per kind.
fn ops(n: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for (e, x) in ENTRIES.iter().enumerate() {
        for i in 0..VALUES[x.1].len().min(n) {
            v.push((e, i));
        }
    }
    v
}
fn name(o: &(usize, usize)) -> String {
    format!("{}.{}", o.0, o.1)
}

const BASES: &[&str] = &["a", "AbC", "user=", "-", "4a:/+b==", " x y ", "name.example.com", "{735484ea-4f6c-f74a-bd66-7425f8476c2e}", "00000001", "\u{e9}\u{df}\u{2028}\u{130}"];
/// Values that are nearly equal to each other, for an entry point.
fn family(entry: usize, base: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    match ENTRIES[entry].1 {
        0 => {
            let b: &[u8] = match base {
                0 => &[10, 1, 2, 3],
                1 => &[0, 0, 0, 0],
                2 => &[0x20, 1, 0xd, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 10, 1, 2, 3],
                3 => &[0; 16],
                4 => &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255, 10, 1, 2, 3],
                _ => return v,
            };
            for at in 0..b.len() {
                for x in 0..=255 {
                    let mut c = b.to_vec();
                    c[at] = x;
                    v.push(match <[u8; 4]>::try_from(&c[..]) {
                        Ok(c) => IpAddr::from(c).to_string(),
                        Err(_) => IpAddr::from(<[u8; 16]>::try_from(&c[..]).unwrap()).to_string(),
                    });
                }
            }
        }
        2 => v = (0..=65535u32).map(|x| x.to_string()).collect(),
        6 => {
            let len = [0usize, 1, 8, 20, 28, 32, 48, 64, 65];
            if base >= len.len() {
                return v;
            }
            let b: Vec<u8> = (0..len[base]).map(|i| if base % 2 == 0 { (i * 37) as u8 } else { 0 }).collect();
            let mut all = vec![b.clone()];
            for at in 0..b.len() {
                for x in 0..=255 {
                    let mut c = b.clone();
                    c[at] = x;
                    all.push(c);
                }
                for o in 0..b.len() {
                    let mut c = b.clone();
                    c.swap(at, o);
                    all.push(c);
                }
                let mut c = b.clone();
                c.remove(at);
                all.push(c);
                all.push(b[..at].to_vec());
                all.push(b[at..].to_vec());
            }
            for n in 0..=130 {
                for x in [0, 1, 255] {
                    all.push(vec![x; n]);
                }
            }
            v = all.iter().map(|c| c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")).collect();
        }
        _ => {
            if base == BASES.len() {
                // long values that differ in one place or in their length only
                for n in 0..400 {
                    v.push("x".repeat(n));
                    let mut t = "y".repeat(399);
                    t.replace_range(n.min(398)..n.min(398) + 1, "z");
                    v.push(t);
                }
            } else if let Some(b) = BASES.get(base) {
                v.push(b.to_string());
                v.extend((0..text::edit_count(b)).map(|i| text::edit_at(b, i)));
                v.extend(cases(b));
                for i in 0..=b.len() {
                    if b.is_char_boundary(i) {
                        v.push(b[..i].into());
                        v.push(b[i..].into());
                    }
                }
                v.extend([format!("{b}{b}"), b.chars().rev().collect(), b.to_lowercase(), b.to_uppercase(), b.trim().into(), format!(" {b}"), format!("{b} ")]);
            }
        }
    }
    let mut seen = HashSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}

/// The i-th value of a kind in a long history.
fn nth(entry: usize, i: u64) -> String {
    match ENTRIES[entry].1 {
        0 => match i % 4 {
            0 => IpAddr::from((i as u32).to_be_bytes()).to_string(),
            1 => IpAddr::from((i as u128).to_be_bytes()).to_string(),
            2 => IpAddr::from(((i as u32).wrapping_mul(0x9E37_79B1)).to_be_bytes()).to_string(),
            _ => IpAddr::from((u128::MAX - i as u128).to_be_bytes()).to_string(),
        },
        2 => i.to_string(),
        6 => match i % 3 {
            0 => i.to_be_bytes().iter().map(|b| b.to_string()).collect::<Vec<_>>().join(","),
            1 => i.to_le_bytes().iter().map(|b| b.to_string()).collect::<Vec<_>>().join(","),
            _ => (0..32).map(|k| ((i >> (k % 8 * 8)) as u8).wrapping_add(k as u8).to_string()).collect::<Vec<_>>().join(","),
        },
        k => match i % 3 {
            0 => format!("v{i}"),
            // what a masked value of this kind may look like
            1 => format!("{}-{i:08}", ["", "fqdn", "", "origin-user", "ice-password", "ice-user", "", "cname"][k]),
            _ => format!("{}-{i:08}", ["", "cname", "", "ice-user", "ice-user", "fqdn", "", "ice-user"][k]),
        },
    }
}

impl Check for Masks {
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "all sequences up to depth 4 (thorough 5) of the 13 entry points with up to 3 values per kind, on one anonymizer and with a \
         second one used in between; all sequences within one kind up to depth 5 (7) with all its values; histories of 300000 (2000000) \
         different values per kind, masked again in other orders; families of nearly equal values (all single edits, all values of one byte or octet, all prefixes, all ports); per kind the map must be a stable injection that keeps family and type; \
         every history again with other values in the place of the first ones, equal ones for equal ones: the same masks must come out"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the length of a history is bounded by the stated number of different values (the counters have 32 bits and more)"]
    }
    fn must_see(&self) -> Vec<&'static str> {
        vec!["injective", "long-history"]
    }
    fn explore(&self, e: &Engine) {
        let all = ops(e.pick(2, 3));
        let (k, d) = (all.len(), 4);
        e.sweep("seq", &format!("all sequences of up to {d} of {k} operations"), seq_count(k, d), |i| {
            seq_at(k, i).into_iter().map(|x| name(&all[x])).collect::<Vec<_>>().join(" ")
        });
        // one value of each kind, deeper
        let one: Vec<_> = ops(4).into_iter().filter(|o| o.1 == 1 || (o.0 == 0 && o.1 == 2)).collect();
        let (k1, d1) = (one.len(), e.pick(5, 6));
        e.sweep("seq", &format!("all sequences of up to {d1} of {k1} operations"), seq_count(k1, d1), |i| {
            seq_at(k1, i).into_iter().map(|x| name(&one[x])).collect::<Vec<_>>().join(" ")
        });
        for (kind, kn) in KINDS.iter().enumerate() {
            let o: Vec<_> = ops(9).into_iter().filter(|o| ENTRIES[o.0].1 == kind).collect();
            let k = o.len();
            let mut d = 3;
            while seq_count(k, d + 1) < e.pick(500_000, 5_000_000) && d < 10 {
                d += 1;
            }
            e.sweep("seq", &format!("{kn}: all sequences of up to {d} of {k} operations"), seq_count(k, d), |i| {
                seq_at(k, i).into_iter().map(|x| name(&o[x])).collect::<Vec<_>>().join(" ")
            });
        }
        let nb = BASES.len() + 1;
        e.sweep("family", "families of nearly equal values", nb * ENTRIES.len(), |i| format!("{} {}", i / nb, i % nb));
        let mut l = vec![];
        let n = e.pick(300_000, 2_000_000);
        for en in 0..ENTRIES.len() {
            l.push(format!("{en} {n}"));
        }
        e.list("long", "histories of many different values", l);
        e.list("longall", "a history of many values of all kinds", vec![format!("{}", e.pick(20_000, 200_000))]);
    }
    fn decide(&self, kind: &str, x: &str) -> Verdict {
        trace();
        match kind {
            "seq" => {
                let ops: Vec<(usize, usize)> = x
                    .split(' ')
                    .filter(|o| !o.is_empty())
                    .map(|o| o.split_once('.').map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap())).unwrap())
                    .collect();
                let mut a = Anon::new();
                let mut m = Model::default();
                let mut out = vec![];
                for (en, vi) in &ops {
                    let v = VALUES[ENTRIES[*en].1][*vi];
                    let r = call(&mut a, *en, v)?;
                    out.push(r.clone());
                    m.see(*en, v, r)?;
                    state(&m.key());
                }
                // a second anonymizer in between changes nothing, and gives the same as a fresh one
                let (mut a, mut b) = (Anon::new(), Anon::new());
                let mut mb = Model::default();
                let mut rev = vec![];
                for (i, (en, vi)) in ops.iter().enumerate() {
                    let v = VALUES[ENTRIES[*en].1][*vi];
                    let (en2, vi2) = ops[ops.len() - 1 - i];
                    let w = VALUES[ENTRIES[en2].1][vi2];
                    let r2 = call(&mut b, en2, w)?;
                    mb.see(en2, w, r2.clone())?;
                    rev.push(r2);
                    if call(&mut a, *en, v)? != out[i] {
                        return Err(format!("call {i} gives another result when a second anonymizer is used in between"));
                    }
                }
                // what comes out depends on the equalities of the values only
                let (mut c, mut names) = (Anon::new(), Renamed::default());
                for (i, (en, vi)) in ops.iter().enumerate() {
                    let v = VALUES[ENTRIES[*en].1][*vi];
                    let r = call(&mut c, *en, &names.get(*en, v))?;
                    if r != out[i] {
                        return Err(reveals(*en, v, &out[i], &r));
                    }
                }
                let mut c = Anon::default();
                for (i, (en, vi)) in ops.iter().rev().enumerate() {
                    if call(&mut c, *en, VALUES[ENTRIES[*en].1][*vi])? != rev[i] {
                        return Err(format!("call {i} of the reversed history depends on another anonymizer"));
                    }
                }
                Ok("injective")
            }
            "family" => {
                let (en, b) = x.split_once(' ').ok_or("bad case")?;
                let (en, b): (usize, usize) = (en.parse().unwrap(), b.parse().unwrap());
                let all = family(en, b);
                let (mut a, mut b) = (Anon::new(), Anon::new());
                let (mut ma, mut mb) = (Model::default(), Model::default());
                let (mut c, mut names) = (Anon::new(), Renamed::default());
                for v in &all {
                    let r = call(&mut a, en, v)?;
                    let o = call(&mut c, en, &names.get(en, v))?;
                    if r != o {
                        return Err(reveals(en, v, &r, &o));
                    }
                    state(&(en, v, &r));
                    ma.see(en, v, r)?;
                }
                for v in all.iter().rev() {
                    let r = call(&mut b, en, v)?;
                    mb.see(en, v, r)?;
                    let r = call(&mut a, en, v)?;
                    ma.see(en, v, r)?;
                }
                Ok(if all.is_empty() { "no-family" } else { "injective" })
            }
            "long" => {
                let (en, n) = x.split_once(' ').ok_or("bad case")?;
                let (en, n): (usize, u64) = (en.parse().unwrap(), n.parse().unwrap());
                let mut a = Anon::new();
                let mut out: HashMap<String, String> = HashMap::new();
                let mut seen: HashSet<String> = HashSet::new();
                let (mut c, mut names) = (Anon::new(), Renamed::default());
                for i in 0..n {
                    let v = nth(en, i);
                    let r = call(&mut a, en, &v)?;
                    let o = call(&mut c, en, &names.get(en, &v))?;
                    if r != o {
                        return Err(reveals(en, &v, &r, &o));
                    }
                    match out.get(&v) {
                        Some(o) if *o != r => return Err(format!("{v:?} was masked as {o:?} and is now masked as {r:?}")),
                        Some(_) => (),
                        None => {
                            if !seen.insert(r.clone()) {
                                return Err(format!("after {i} values {v:?} gets the mask {r:?} of an earlier value"));
                            }
                            out.insert(v, r);
                        }
                    }
                }
                for i in (0..n).rev() {
                    let v = nth(en, i);
                    let r = call(&mut a, en, &v)?;
                    if out[&v] != r {
                        return Err(format!("{v:?} was masked as {:?}, after {n} values as {r:?}", out[&v]));
                    }
                }
                state(&(en, n));
                Ok("long-history")
            }
            _ => {
                let n: u64 = x.parse().map_err(|_| "bad case")?;
                let mut a = Anon::new();
                let mut m = Model::default();
                for i in 0..n {
                    for en in 0..ENTRIES.len() {
                        let v = nth(en, i);
                        let r = call(&mut a, en, &v)?;
                        m.see(en, &v, r)?;
                    }
                }
                for i in (0..n).map(|i| (i * 7919) % n) {
                    for en in (0..ENTRIES.len()).rev() {
                        let v = nth(en, i);
                        let r = call(&mut a, en, &v)?;
                        m.see(en, &v, r)?;
                    }
                }
                Ok("long-history")
            }
        }
    }
}
