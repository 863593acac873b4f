//! C18: addresses.
use super::*;
use crate::alpha::*;
use std::convert::TryFrom;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use webrtc_sdp::address::{Address, AddressType, AddressTyped, ExplicitlyTypedAddress as Typed};
use webrtc_sdp::attribute_type::SdpAttribute;
use webrtc_sdp::{parse_sdp_line, SdpType};

pub struct Addresses;
pub static C18: Addresses = Addresses;

const OCTETS: &[&str] = &[
    "0", "1", "9", "10", "99", "100", "127", "192", "199", "200", "249", "250", "255", "256", "300", "00", "01", "1a", "", "x",
];
const GROUPS: &[&str] = &["0", "1", "ffff", "10", "abcd", "8000", "f"];

/// The address that a plain spelling denotes, computed without a parser of addresses.
fn plain(t: &str) -> Option<IpAddr> {
    fn quad(t: &str) -> Option<[u8; 4]> {
        let p: Vec<&str> = t.split('.').collect();
        if p.len() != 4 {
            return None;
        }
        let mut o = [0; 4];
        for (i, x) in p.iter().enumerate() {
            if x.is_empty() || x.len() > 3 || (x.len() > 1 && x.starts_with('0')) || !x.bytes().all(|b| b.is_ascii_digit()) {
                return None;
            }
            let n: u32 = x.bytes().fold(0, |a, b| a * 10 + u32::from(b - b'0'));
            o[i] = u8::try_from(n).ok()?;
        }
        Some(o)
    }
    if !t.contains(':') {
        return quad(t).map(|o| IpAddr::V4(Ipv4Addr::new(o[0], o[1], o[2], o[3])));
    }
    fn groups(t: &str, last: bool) -> Option<Vec<u16>> {
        if t.is_empty() {
            return Some(vec![]);
        }
        let p: Vec<&str> = t.split(':').collect();
        let mut v = vec![];
        for (i, x) in p.iter().enumerate() {
            if last && i + 1 == p.len() && x.contains('.') {
                let o = quad(x)?;
                v.push(u16::from(o[0]) << 8 | u16::from(o[1]));
                v.push(u16::from(o[2]) << 8 | u16::from(o[3]));
                continue;
            }
            if x.is_empty() || x.len() > 4 || !x.bytes().all(|b| b.is_ascii_hexdigit()) {
                return None;
            }
            v.push(x.chars().fold(0, |a, c| a << 4 | c.to_digit(16).unwrap() as u16));
        }
        Some(v)
    }
    let g = match t.split_once("::") {
        None => groups(t, true)?,
        Some((a, b)) => {
            if b.contains("::") {
                return None;
            }
            let (a, b) = (groups(a, false)?, groups(b, true)?);
            if a.len() + b.len() > 7 {
                return None;
            }
            let mut v = a.clone();
            v.resize(8 - b.len(), 0);
            v.extend(b);
            v
        }
    };
    let g: [u16; 8] = g.try_into().ok()?;
    Some(IpAddr::V6(Ipv6Addr::from(g)))
}

/// Constructed addresses, for equality.
fn values() -> Vec<Address> {
    let mut v: Vec<Address> = vec![];
    for n in [
        "a", "A", "example.com", "EXAMPLE.COM", "Example.Com", "example.com.", "example.org", "1.2.3.4", "::1", "FE80::1", "fe80::1",
        "", "xn--bcher-kva.example", "XN--BCHER-KVA.example", "a.local", "A.LOCAL", "a_local", "b", "z", "Z", "[", "{", "@", "`",
    ] {
        v.push(Address::Fqdn(n.into()));
    }
    for n in [
        "1.2.3.4", "4.3.2.1", "0.0.0.0", "255.255.255.255", "::", "::1", "::1.2.3.4", "::ffff:1.2.3.4", "fe80::1", "1::", "::ffff:0:0",
    ] {
        v.push(Address::Ip(n.parse().unwrap()));
    }
    v
}
fn typed_values() -> Vec<Typed> {
    let mut v = vec![];
    for a in values() {
        match a {
            Address::Ip(i) => v.push(Typed::Ip(i)),
            Address::Fqdn(d) => {
                for t in [AddressType::IpV4, AddressType::IpV6] {
                    v.push(Typed::Fqdn { address_type: t, domain: d.clone() });
                }
            }
        }
    }
    v
}
/// What equality must depend on.
fn key(a: &Address) -> (u8, String) {
    match a {
        Address::Ip(IpAddr::V4(i)) => (4, i.to_string()),
        Address::Ip(IpAddr::V6(i)) => (6, i.to_string()),
        Address::Fqdn(d) => (0, d.chars().map(|c| c.to_ascii_lowercase()).collect()),
    }
}
fn tkey(a: &Typed) -> (u8, String, u8) {
    match a {
        Typed::Ip(i) => {
            let k = key(&Address::Ip(*i));
            (k.0, k.1, 0)
        }
        Typed::Fqdn { address_type, domain } => {
            let k = key(&Address::Fqdn(domain.clone()));
            (0, k.1, if *address_type == AddressType::IpV4 { 4 } else { 6 })
        }
    }
}

impl Check for Addresses {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "all products of 20 octet spellings over four places and of group values over eight places in every compressed spelling (value computed \
         independently), a host table and all its single edits, each with both declared types and in every line that holds an address; equality \
         of all pairs and triples of 35 constructed addresses and 59 typed ones; conversions"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["texts that are neither plain IP addresses nor plain names are classified by the url crate, which is trusted"]
    }
    fn must_see(&self) -> Vec<&'static str> {
        vec!["ip", "name", "refused", "equal", "different", "typed", "mismatch"]
    }
    fn explore(&self, e: &Engine) {
        let k = OCTETS.len();
        e.sweep("text", "all products of octet spellings", k.pow(4), |i| {
            format!("{}.{}.{}.{}", OCTETS[i / k / k / k], OCTETS[i / k / k % k], OCTETS[i / k % k], OCTETS[i % k])
        });
        // every octet value at every place
        e.sweep("text", "every value of every octet", 4 * 1000, |i| {
            let mut o = ["10".to_string(), "20".into(), "30".into(), "40".into()];
            o[i / 1000] = (i % 1000).to_string();
            o.join(".")
        });
        // groups: every vector over few values, in several spellings
        let g = e.pick(3usize, 5);
        e.sweep("text", &format!("all products of {g} values over eight groups x compressions and spellings"), g.pow(8) * 12, |i| {
            let (mut n, form) = (i / 12, i % 12);
            let mut v = vec![];
            for _ in 0..8 {
                v.push(GROUPS[n % g].to_string());
                n /= g;
            }
            spell(&v, form)
        });
        e.sweep("text", "one group away from a base, every compression", 8 * 0x10000 / e.pick(16, 1), |i| {
            let i = if e.thorough() { i } else { i * 16 + (i % 16) };
            let mut v = vec!["2001".to_string(), "db8".into(), "0".into(), "0".into(), "0".into(), "8a2e".into(), "370".into(), "7334".into()];
            v[i % 8] = format!("{:x}", i / 8);
            spell(&v, i % 12)
        });
        let mut hosts: Vec<String> = HOSTS.iter().chain(BAD_HOSTS).map(|x| x.to_string()).chain(special_addresses()).collect();
        for n in 0..e.pick3(300usize, 1000, 6000) {
            hosts.push("x".repeat(n));
            hosts.push(format!("{}.example", "y".repeat(n)));
            hosts.push((0..n).map(|i| format!("l{i}")).collect::<Vec<_>>().join("."));
        }
        let mut more = hosts.clone();
        for h in &hosts {
            if h.len() < 60 {
                more.extend(cases(h));
                for i in 0..super::text::edit_count(h) {
                    let t = super::text::edit_at(h, i);
                    if !t.is_empty() {
                        more.push(t);
                    }
                }
            }
        }
        // every character and some text before and behind
        let short: Vec<&String> = hosts.iter().filter(|h| h.len() < 48).collect();
        for h in &short {
            for c in (0x21..0x7fu8).map(char::from) {
                for t in ["1", "0", "25", "a", "eth0", "80", "8/9", "1.2.3.4", "::1", "]"] {
                    more.push(format!("{h}{c}{t}"));
                    more.push(format!("{t}{c}{h}"));
                }
                more.push(format!("{c}{h}{c}"));
                more.push(format!("[{h}]{c}1"));
                more.push(format!("[{h}{c}1]"));
            }
        }
        more.extend(words());
        more.sort();
        more.dedup();
        e.list("text", "host table, case variants, all single edits, every character and a text before and behind, all lengths", more.clone());
        more.retain(|t| !t.is_empty() && !t.contains(char::is_whitespace));
        e.sweep("typed", "the same with both declared types and in every line with an address", more.len() * 2, |i| {
            format!("{} {}", ["IP4", "IP6"][i % 2], more[i / 2])
        });
        let k = OCTETS.len();
        e.sweep("typed", "products of octets with declared types", k.pow(4), |i| {
            format!("{} {}.{}.{}.{}x", ["IP4", "IP6"][i % 2], OCTETS[i / k / k / k], OCTETS[i / k / k % k], OCTETS[i / k % k], OCTETS[i % k])
                .replace(".x", ".9")
                .trim_end_matches('x')
                .to_string()
        });
        let n = values().len();
        e.sweep("triple", "all triples of constructed addresses", n * n * n, |i| format!("{} {} {}", i / n / n, i / n % n, i % n));
        let n = typed_values().len();
        e.sweep("ttriple", "all triples of constructed typed addresses", n * n * n, |i| {
            format!("{} {} {}", i / n / n, i / n % n, i % n)
        });
        // the type keyword
        let mut l: Vec<String> = vec!["".into(), " ".into(), "4".into(), "IPV4".into(), "IP4 ".into(), "IP5".into(), "IN".into(), "IP".into()];
        for t in ["IP4", "IP6"] {
            for m in 0..8usize {
                l.push(t.chars().enumerate().map(|(i, c)| if m >> i & 1 == 1 { c.to_ascii_lowercase() } else { c }).collect());
            }
            for i in 0..super::text::edit_count(t) {
                l.push(super::text::edit_at(t, i));
            }
        }
        e.list("type", "address type keywords", l);
    }
    fn decide(&self, kind: &str, x: &str) -> Verdict {
        trace();
        match kind {
            "text" => text(x),
            "typed" => typed(x),
            "type" => {
                trans(1);
                let want = match x.to_ascii_uppercase().as_str() {
                    "IP4" => Some(AddressType::IpV4),
                    "IP6" => Some(AddressType::IpV6),
                    _ => None,
                };
                let got = x.parse::<AddressType>().ok();
                if got != want {
                    return Err(format!("expected {want:?}, found {got:?}"));
                }
                if let Some(t) = got {
                    if t.to_string() != x.to_ascii_uppercase() {
                        return Err(format!("prints as {t}"));
                    }
                }
                Ok("type")
            }
            "triple" => {
                let v = values();
                let i: Vec<usize> = x.split(' ').map(|i| i.parse().unwrap()).collect();
                let (a, b, c) = (&v[i[0]], &v[i[1]], &v[i[2]]);
                trans(3);
                let same = key(a) == key(b);
                if (a == b) != same || (b == a) != same || (a != b) == same {
                    return Err(format!("{a:?} == {b:?} is {}", a == b));
                }
                if a == b && b == c && a != c {
                    return Err(format!("{a:?} == {b:?} == {c:?} but not the first and the last"));
                }
                if *a != a.clone() {
                    return Err(format!("{a:?} differs from its clone"));
                }
                Ok(if same { "equal" } else { "different" })
            }
            _ => {
                let v = typed_values();
                let i: Vec<usize> = x.split(' ').map(|i| i.parse().unwrap()).collect();
                let (a, b, c) = (&v[i[0]], &v[i[1]], &v[i[2]]);
                trans(4);
                let same = tkey(a) == tkey(b);
                if (a == b) != same || (b == a) != same || (a != b) == same {
                    return Err(format!("{a:?} == {b:?} is {}", a == b));
                }
                if a == b && b == c && a != c {
                    return Err(format!("{a:?} == {b:?} == {c:?} but not the first and the last"));
                }
                // conversion
                let (p, q) = (Address::from(a.clone()), Address::from(b.clone()));
                let (ka, kb) = (tkey(a), tkey(b));
                if (p == q) != ((ka.0, ka.1) == (kb.0, kb.1)) {
                    return Err(format!("{a:?}, {b:?} convert to {p:?}, {q:?}"));
                }
                if proj::addr(&p) != proj::addr(&untyped(a)) {
                    return Err(format!("{a:?} converts to {p:?}"));
                }
                if a.address_type() != ty(a) {
                    return Err(format!("{a:?} has the type {:?}", a.address_type()));
                }
                Ok(if same { "equal" } else { "different" })
            }
        }
    }
}
fn untyped(a: &Typed) -> Address {
    match a {
        Typed::Ip(i) => Address::Ip(*i),
        Typed::Fqdn { domain, .. } => Address::Fqdn(domain.clone()),
    }
}
fn ty(a: &Typed) -> AddressType {
    match a {
        Typed::Ip(IpAddr::V4(_)) => AddressType::IpV4,
        Typed::Ip(IpAddr::V6(_)) => AddressType::IpV6,
        Typed::Fqdn { address_type, .. } => *address_type,
    }
}
/// A spelling of eight groups.
fn spell(v: &[String], form: usize) -> String {
    let j = |x: &[String]| x.join(":");
    match form {
        0 => j(v),
        1 => j(v).to_uppercase(),
        2 => v.iter().map(|x| format!("{:0>4}", x)).collect::<Vec<_>>().join(":"),
        3..=9 => {
            // compress the zeros from this place on
            let a = form - 3;
            let mut b = a;
            while b < 8 && v[b] == "0" {
                b += 1;
            }
            if b == a {
                return format!("{}::{}", j(&v[..a]), j(&v[a + 1..]));
            }
            format!("{}::{}", j(&v[..a]), j(&v[b..]))
        }
        10 => {
            let n = |x: &str| u16::from_str_radix(x, 16).unwrap();
            let (p, q) = (n(&v[6]), n(&v[7]));
            format!("{}:{}.{}.{}.{}", j(&v[..6]), p >> 8, p & 255, q >> 8, q & 255)
        }
        _ => format!("[{}]", j(v)),
    }
}
fn text(x: &str) -> Verdict {
    trans(1);
    let got = x.parse::<Address>();
    let want = match plain(x) {
        Some(ip) => Ok(T("Ip", vec![S(ip.to_string())])),
        None => refparse::addr(x),
    };
    let g = got.as_ref().map(proj::addr).map_err(|_| Cls::Err);
    state(&g);
    if g != want {
        return Err(format!("{x:?}: expected {want:?}, found {got:?}"));
    }
    let Ok(a) = got else { return Ok("refused") };
    // a plain lower case name is kept as it is
    if x.bytes().all(|b| b.is_ascii_lowercase() || b == b'-') && !x.contains("xn--") && !matches!(&a, Address::Fqdn(d) if d == x) {
        return Err(format!("{x:?} is read as {a:?}"));
    }
    let t = a.to_string();
    trans(2);
    match t.parse::<Address>() {
        Ok(b) if b == a && a == b && proj::addr(&a) == proj::addr(&b) => (),
        b => return Err(format!("{x:?} is read as {a:?}, which prints as {t:?} and is read as {b:?}")),
    }
    // another spelling of the case
    if let Address::Fqdn(_) = &a {
        for c in cases(x) {
            if let Ok(b) = c.parse::<Address>() {
                if !(a == b) {
                    return Err(format!("{x:?} and {c:?} are different: {a:?}, {b:?}"));
                }
            }
        }
    }
    Ok(if matches!(a, Address::Ip(_)) { "ip" } else { "name" })
}
fn typed(x: &str) -> Verdict {
    let (t, h) = x.split_once(' ').ok_or("bad case")?;
    let at: AddressType = if t == "IP4" { AddressType::IpV4 } else { AddressType::IpV6 };
    let want = match plain(h) {
        Some(ip) if ip.is_ipv4() != (t == "IP4") => Err(Cls::Err),
        Some(ip) => Ok(T("TIp", vec![U(if ip.is_ipv4() { 4 } else { 6 }), S(ip.to_string())])),
        None => refparse::typed_addr("IN", t, h),
    };
    let got = Typed::try_from((at, h));
    trans(1);
    let g = got.as_ref().map(proj::taddr).map_err(|_| Cls::Err);
    state(&g);
    if g != want {
        return Err(format!("{x:?}: expected {want:?}, found {got:?}"));
    }
    // every line that holds a typed address
    let conn = parse_sdp_line(&format!("c=IN {t} {h}"), 0).ok().and_then(|l| match l.sdp_type {
        SdpType::Connection(c) => Some(c.address),
        _ => None,
    });
    let org = parse_sdp_line(&format!("o=- 1 2 IN {t} {h}"), 0).ok().and_then(|l| match l.sdp_type {
        SdpType::Origin(c) => Some(c.unicast_addr),
        _ => None,
    });
    let rtcp = format!("rtcp:9 IN {t} {h}").parse::<SdpAttribute>().ok().and_then(|a| match a {
        SdpAttribute::Rtcp(r) => r.unicast_addr,
        _ => None,
    });
    trans(3);
    for (n, v) in [("connection", conn), ("origin", org), ("rtcp", rtcp)] {
        if n == "connection" && h.contains('/') {
            continue;
        }
        if v.as_ref().map(proj::taddr) != want.as_ref().ok().cloned() {
            return Err(format!("{x:?} in a {n}: expected {want:?}, found {v:?}"));
        }
    }
    let cand = format!("candidate:0 1 UDP 1 {h} 9 typ host raddr {h} rport 1").parse::<SdpAttribute>().ok().and_then(|a| match a {
        SdpAttribute::Candidate(c) => Some((c.address, c.raddr)),
        _ => None,
    });
    let rem = format!("remote-candidates:1 {h} 9").parse::<SdpAttribute>().ok().and_then(|a| match a {
        SdpAttribute::RemoteCandidate(c) => Some(c.address),
        _ => None,
    });
    let un = match plain(h) {
        Some(ip) => Ok(T("Ip", vec![S(ip.to_string())])),
        None => refparse::addr(h),
    }
    .ok();
    trans(2);
    if cand.as_ref().map(|c| proj::addr(&c.0)) != un
        || cand.as_ref().and_then(|c| c.1.as_ref()).map(proj::addr) != un
        || rem.as_ref().map(proj::addr) != un
    {
        return Err(format!("{h:?}: expected {un:?}, found {cand:?} in a candidate, {rem:?} in remote-candidates"));
    }
    let Ok(a) = got else { return Ok(if un.is_some() { "mismatch" } else { "refused" }) };
    if a.address_type() != at {
        return Err(format!("{a:?} has the type {:?}", a.address_type()));
    }
    // print and read again
    let p = a.to_string();
    let mut it = p.split(' ');
    let (n, ty, hh) = (it.next(), it.next().unwrap_or(""), it.next().unwrap_or(""));
    let back = ty.parse::<AddressType>().ok().and_then(|t| Typed::try_from((t, hh)).ok());
    trans(1);
    if n != Some("IN") || it.next().is_some() || back.as_ref().map(proj::taddr) != Some(proj::taddr(&a)) || back.as_ref() != Some(&a) {
        return Err(format!("{a:?} prints as {p:?}, which is read as {back:?}"));
    }
    let f = Address::from(a.clone());
    if h.parse::<Address>().ok() != Some(f.clone()) || Some(proj::addr(&f)) != un {
        return Err(format!("{a:?} converts to {f:?}"));
    }
    if let Typed::Ip(ip) = &a {
        let b = Typed::from(*ip);
        if b != a || proj::taddr(&b) != proj::taddr(&a) {
            return Err(format!("{ip} converts to {b:?}"));
        }
        let c = match ip {
            IpAddr::V4(i) => Typed::from(*i),
            IpAddr::V6(i) => Typed::from(*i),
        };
        if proj::taddr(&c) != proj::taddr(&a) {
            return Err(format!("{ip} converts to {c:?}"));
        }
    }
    Ok("typed")
}
