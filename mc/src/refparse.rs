//! Reference semantics: text -> model value, written from the documented syntax, independent of
//! the parser under check. Host names are classified by the url crate (a trusted dependency).
use crate::model::*;
use std::net::IpAddr;

pub type R = Result<V, Cls>;
const E: Cls = Cls::Err;
const UNS: Cls = Cls::Unsup;

pub const U8: u128 = u8::MAX as u128;
pub const U16: u128 = u16::MAX as u128;
pub const U32: u128 = u32::MAX as u128;
pub const U64: u128 = u64::MAX as u128;

/// A decimal number of at most `max`.
pub fn int(t: &str, max: u128) -> Result<u128, Cls> {
    let d = t.strip_prefix('+').unwrap_or(t);
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
        return Err(E);
    }
    let mut v: u128 = 0;
    for b in d.bytes() {
        v = v * 10 + u128::from(b - b'0');
        if v > max {
            return Err(E);
        }
    }
    Ok(v)
}
fn iv(t: &str, max: u128) -> R {
    int(t, max).map(U)
}
fn f32p(t: &str) -> Result<f32, Cls> {
    t.parse::<f32>().map_err(|_| E)
}
fn toks(t: &str) -> Vec<&str> {
    t.split_whitespace().collect()
}

pub enum Host {
    Ip(IpAddr),
    Name(String),
}
pub fn host(t: &str) -> Result<Host, Cls> {
    if t.contains(':') {
        if let Ok(ip) = t.parse::<IpAddr>() {
            return Ok(Host::Ip(ip));
        }
    }
    match url::Host::parse(t) {
        Ok(url::Host::Domain(d)) => Ok(Host::Name(d)),
        Ok(url::Host::Ipv4(i)) => Ok(Host::Ip(IpAddr::V4(i))),
        Ok(url::Host::Ipv6(i)) => Ok(Host::Ip(IpAddr::V6(i))),
        Err(_) => Err(E),
    }
}
pub fn addr(t: &str) -> R {
    Ok(match host(t)? {
        Host::Ip(i) => T("Ip", vec![S(i.to_string())]),
        Host::Name(d) => T("Fqdn", vec![S(d)]),
    })
}
/// `IN IP4 host`, three tokens.
pub fn typed_addr(net: &str, ty: &str, h: &str) -> R {
    if !net.eq_ignore_ascii_case("IN") {
        return Err(E);
    }
    let fam = match ty.to_ascii_uppercase().as_str() {
        "IP4" => 4,
        "IP6" => 6,
        _ => return Err(E),
    };
    match host(h)? {
        Host::Ip(i) => {
            if fam != if i.is_ipv4() { 4 } else { 6 } {
                return Err(E);
            }
            Ok(T("TIp", vec![U(fam), S(i.to_string())]))
        }
        Host::Name(d) => Ok(T("TFqdn", vec![U(fam), S(d)])),
    }
}

// ---------------------------------------------------------------- session-level lines

pub fn version(v: &str) -> R {
    match int(v, U64)? {
        0 => Ok(U(0)),
        _ => Err(E),
    }
}
pub fn origin(v: &str) -> R {
    let t = toks(v);
    if t.len() < 6 {
        return Err(E);
    }
    Ok(T("o", vec![s(t[0]), iv(t[1], U64)?, iv(t[2], U64)?, typed_addr(t[3], t[4], t[5])?]))
}
pub fn connection(v: &str) -> R {
    let t = toks(v);
    if t.len() != 3 {
        return Err(E);
    }
    let p: Vec<&str> = t[2].split('/').collect();
    let ttl = if p.len() > 1 { some(iv(p[1], U8)?) } else { No };
    let amount = if p.len() > 2 { some(iv(p[2], U32)?) } else { No };
    Ok(T("c", vec![typed_addr(t[0], t[1], p[0])?, ttl, amount]))
}
pub fn bandwidth(v: &str) -> R {
    let p: Vec<&str> = v.split(':').collect();
    if p.len() != 2 {
        return Err(E);
    }
    let n = iv(p[1], U32)?;
    Ok(match p[0].to_ascii_uppercase().as_str() {
        "AS" => T("AS", vec![n]),
        "CT" => T("CT", vec![n]),
        "TIAS" => T("TIAS", vec![n]),
        _ => T("bw-other", vec![s(p[0]), n]),
    })
}
pub fn timing(v: &str) -> R {
    let t = toks(v);
    if t.len() != 2 {
        return Err(E);
    }
    Ok(T("t", vec![iv(t[0], U64)?, iv(t[1], U64)?]))
}
pub const PROTOS: [&str; 11] = [
    "RTP/AVP",
    "RTP/AVPF",
    "RTP/SAVP",
    "RTP/SAVPF",
    "TCP/DTLS/RTP/SAVP",
    "TCP/DTLS/RTP/SAVPF",
    "UDP/TLS/RTP/SAVP",
    "UDP/TLS/RTP/SAVPF",
    "DTLS/SCTP",
    "UDP/DTLS/SCTP",
    "TCP/DTLS/SCTP",
];
/// The verdicts of a media line with several faults are those of any of them.
pub fn media_all(v: &str) -> Result<V, Vec<Cls>> {
    let t = toks(v);
    if t.len() < 4 {
        return Err(vec![E]);
    }
    let mut bad = vec![];
    let kind = match t[0].to_ascii_lowercase().as_str() {
        k @ ("audio" | "video" | "application") => k.to_string(),
        _ => {
            bad.push(UNS);
            String::new()
        }
    };
    let p: Vec<&str> = t[1].split('/').collect();
    let port = int(p[0], 65535).unwrap_or_else(|e| {
        bad.push(e);
        0
    });
    let count = if p.len() > 1 {
        int(p[1], U32).unwrap_or_else(|e| {
            bad.push(e);
            0
        })
    } else {
        0
    };
    let proto = match PROTOS.iter().find(|x| x.eq_ignore_ascii_case(t[2])) {
        Some(x) => *x,
        None => {
            bad.push(UNS);
            ""
        }
    };
    let formats = if kind == "application" || kind.is_empty() {
        T("strs", vec![L(t[3..].iter().map(|x| s(x)).collect())])
    } else {
        let mut l = vec![];
        for x in &t[3..] {
            match int(x, 127) {
                Ok(n) if !matches!(n, 1 | 2 | 19 | 64..=95) => l.push(U(n)),
                _ => bad.push(E),
            }
        }
        T("ints", vec![L(l)])
    };
    if bad.is_empty() {
        Ok(T("m", vec![S(kind), U(port), U(count), s(proto), formats]))
    } else {
        Err(bad)
    }
}
pub fn media(v: &str) -> R {
    media_all(v).map_err(|b| b[0])
}

// ---------------------------------------------------------------- attributes

pub const FLAGS: [&str; 12] = [
    "bundle-only",
    "end-of-candidates",
    "extmap-allow-mixed",
    "ice-lite",
    "ice-mismatch",
    "inactive",
    "recvonly",
    "rtcp-mux",
    "rtcp-mux-only",
    "rtcp-rsize",
    "sendonly",
    "sendrecv",
];
pub const VALUED: [&str; 31] = [
    "candidate",
    "dtls-message",
    "extmap",
    "fingerprint",
    "fmtp",
    "framerate",
    "group",
    "ice-options",
    "ice-pacing",
    "ice-pwd",
    "ice-ufrag",
    "identity",
    "imageattr",
    "label",
    "max-message-size",
    "maxptime",
    "mid",
    "msid",
    "msid-semantic",
    "ptime",
    "remote-candidates",
    "rid",
    "rtcp",
    "rtcp-fb",
    "rtpmap",
    "sctp-port",
    "sctpmap",
    "setup",
    "simulcast",
    "ssrc",
    "ssrc-group",
];
pub const MEDIA_ONLY: [&str; 25] = [
    "bundle-only",
    "candidate",
    "fmtp",
    "framerate",
    "ice-mismatch",
    "imageattr",
    "label",
    "max-message-size",
    "maxptime",
    "mid",
    "msid",
    "ptime",
    "rid",
    "remote-candidates",
    "rtpmap",
    "rtcp",
    "rtcp-fb",
    "rtcp-mux",
    "rtcp-mux-only",
    "rtcp-rsize",
    "sctpmap",
    "sctp-port",
    "simulcast",
    "ssrc",
    "ssrc-group",
];
/// Refused in a media section; dtls-message is ignored there by the parser.
pub const SESSION_ONLY: [&str; 5] = ["group", "identity", "ice-lite", "ice-pacing", "msid-semantic"];

pub fn name_of(attr: &V) -> &'static str {
    match attr {
        T(n, _) => n,
        _ => "?",
    }
}

pub fn attr(text: &str) -> R {
    let (name, val) = match text.find(':') {
        Some(i) => (&text[..i], Some(text[i + 1..].trim())),
        None => (text, None),
    };
    let name = name.to_lowercase();
    if let Some(f) = FLAGS.iter().find(|f| **f == name) {
        return if val.is_some() { Err(E) } else { Ok(T(f, vec![])) };
    }
    let Some(n) = VALUED.iter().find(|f| **f == name) else { return Err(UNS) };
    let v = val.unwrap_or("");
    let one = |x: V| Ok(T(n, vec![x]));
    match *n {
        "ice-pwd" | "ice-ufrag" | "identity" | "label" | "mid" => {
            if v.is_empty() {
                Err(E)
            } else {
                one(s(v))
            }
        }
        "max-message-size" | "maxptime" | "ptime" => one(iv(v, U64)?),
        "ice-pacing" => one(iv(v, 9_999_999_999)?),
        "sctp-port" => one(iv(v, 65535)?),
        "framerate" => {
            let x: f64 = v.parse().map_err(|_| E)?;
            if x == 0.0 || !x.is_finite() {
                Err(E)
            } else {
                one(fl(x))
            }
        }
        "ice-options" => {
            if v.is_empty() {
                Err(E)
            } else {
                one(L(toks(v).into_iter().map(s).collect()))
            }
        }
        "setup" => {
            let k = v.to_ascii_lowercase();
            if ["active", "actpass", "holdconn", "passive"].contains(&k.as_str()) {
                one(S(k))
            } else {
                Err(E)
            }
        }
        "dtls-message" => {
            let t: Vec<&str> = v.split(' ').collect();
            if t.len() == 2 && (t[0] == "client" || t[0] == "server") {
                Ok(T(n, vec![s(t[0]), s(t[1])]))
            } else {
                Err(E)
            }
        }
        "candidate" => candidate(v),
        "remote-candidates" => {
            let t = toks(v);
            if t.len() < 3 {
                return Err(E);
            }
            Ok(T(n, vec![iv(t[0], U32)?, addr(t[1])?, iv(t[2], 65535)?]))
        }
        "rtcp" => {
            let t = toks(v);
            let a = match t.len() {
                0 | 2 | 3 => return Err(E),
                1 => No,
                _ => some(typed_addr(t[1], t[2], t[3])?),
            };
            Ok(T(n, vec![iv(t[0], U16)?, a]))
        }
        "sctpmap" => {
            let t = toks(v);
            if t.len() != 3 || !t[1].eq_ignore_ascii_case("webrtc-datachannel") {
                return Err(E);
            }
            Ok(T(n, vec![iv(t[0], U16)?, iv(t[2], U32)?]))
        }
        "fingerprint" => fingerprint(v),
        "extmap" => extmap(v),
        "rtpmap" => {
            let t = toks(v);
            if t.len() < 2 {
                return Err(E);
            }
            let p: Vec<&str> = t[1].split('/').collect();
            if p.len() < 2 {
                return Err(E);
            }
            let ch = if p.len() > 2 { some(iv(p[2], U32)?) } else { No };
            Ok(T(n, vec![iv(t[0], 127)?, s(p[0]), iv(p[1], U32)?, ch]))
        }
        "rtcp-fb" => rtcp_fb(v),
        "fmtp" => fmtp(v),
        "rid" => rid(v),
        "simulcast" => simulcast(v),
        "imageattr" => imageattr(v),
        "group" => {
            let t = toks(v);
            if t.is_empty() {
                return Err(E);
            }
            let k = t[0].to_ascii_uppercase();
            if !["LS", "FID", "SRF", "ANAT", "FEC", "DDP", "BUNDLE"].contains(&k.as_str()) {
                return Err(UNS);
            }
            Ok(T(n, vec![S(k), L(t[1..].iter().map(|x| s(x)).collect())]))
        }
        "msid" => {
            let t = toks(v);
            if t.is_empty() {
                return Err(E);
            }
            Ok(T(n, vec![s(t[0]), opt(t.get(1), |x| s(x))]))
        }
        "msid-semantic" => {
            let t = toks(v);
            if t.is_empty() {
                return Err(E);
            }
            Ok(T(n, vec![s(t[0]), L(t[1..].iter().map(|x| s(x)).collect())]))
        }
        "ssrc" => ssrc(v),
        "ssrc-group" => {
            let t = toks(v);
            if t.is_empty() {
                return Err(E);
            }
            let k = t[0].to_ascii_uppercase();
            if !["DUP", "FID", "FEC", "FEC-FR", "SIM"].contains(&k.as_str()) {
                return Err(UNS);
            }
            if t.len() < 2 {
                return Err(E);
            }
            let ids: Result<Vec<V>, Cls> = t[1..].iter().map(|x| ssrc(x)).collect();
            Ok(T(n, vec![S(k), L(ids?)]))
        }
        _ => unreachable!(),
    }
}

fn ssrc(v: &str) -> R {
    let (id, rest) = match v.find(' ') {
        Some(i) => (&v[..i], Some(&v[i + 1..])),
        None => (v, None),
    };
    let id = iv(id, U32)?;
    Ok(T(
        "ssrc",
        match rest {
            None => vec![id, No, No],
            Some(r) => match r.find(':') {
                None => vec![id, some(s(r)), No],
                Some(i) => vec![id, some(s(&r[..i])), some(s(&r[i + 1..]))],
            },
        },
    ))
}

fn candidate(v: &str) -> R {
    let t = toks(v);
    if t.len() < 8 {
        return Err(E);
    }
    let comp = iv(t[1], U32)?;
    let low = |x: &str| x.to_ascii_lowercase();
    let tr = low(t[2]);
    if tr != "udp" && tr != "tcp" {
        return Err(E);
    }
    let prio = iv(t[3], U64)?;
    let a = addr(t[4])?;
    let port = iv(t[5], 65535)?;
    if low(t[6]) != "typ" {
        return Err(E);
    }
    let ty = low(t[7]);
    if !["host", "srflx", "prflx", "relay"].contains(&ty.as_str()) {
        return Err(E);
    }
    let (mut raddr, mut rport, mut tcp, mut gen, mut ufrag, mut cost) = (No, No, No, No, No, No);
    let mut ext = vec![];
    for pair in t[8..].chunks(2) {
        if pair.len() == 1 {
            return Err(UNS);
        }
        let (k, x) = (pair[0], pair[1]);
        match low(k).as_str() {
            "raddr" => raddr = some(addr(x)?),
            "rport" => rport = some(iv(x, 65535)?),
            "tcptype" => {
                let y = low(x);
                if !["active", "passive", "so"].contains(&y.as_str()) {
                    return Err(E);
                }
                tcp = some(S(y));
            }
            "generation" => gen = some(iv(x, U32)?),
            "ufrag" => ufrag = some(s(x)),
            "network-cost" => cost = some(iv(x, U32)?),
            _ => ext.push(T("ext", vec![s(k), s(x)])),
        }
    }
    Ok(T(
        "candidate",
        vec![
            s(t[0]),
            comp,
            S(tr),
            prio,
            a,
            port,
            S(ty),
            raddr,
            rport,
            tcp,
            gen,
            ufrag,
            cost,
            L(ext),
        ],
    ))
}

fn fingerprint(v: &str) -> R {
    let t = toks(v);
    if t.len() != 2 {
        return Err(E);
    }
    let len = match t[0] {
        "sha-1" => 20,
        "sha-224" => 28,
        "sha-256" => 32,
        "sha-384" => 48,
        "sha-512" => 64,
        _ => return Err(UNS),
    };
    let mut b = vec![];
    for x in t[1].split(':') {
        let d: Vec<u32> = x.chars().map(|c| c.to_digit(16).unwrap_or(99)).collect();
        if d.len() != 2 || d.contains(&99) {
            return Err(E);
        }
        b.push(U(u128::from(d[0] * 16 + d[1])));
    }
    if b.len() != len {
        return Err(E);
    }
    Ok(T("fingerprint", vec![s(t[0]), L(b)]))
}

fn extmap(v: &str) -> R {
    let t = toks(v);
    if t.len() < 2 {
        return Err(E);
    }
    let (id, dir) = match t[0].find('/') {
        None => (t[0], No),
        Some(i) => {
            let d = t[0][i + 1..].to_ascii_lowercase();
            if !["sendonly", "recvonly", "sendrecv"].contains(&d.as_str()) {
                return Err(E);
            }
            (&t[0][..i], some(S(d)))
        }
    };
    let ext = if t.len() > 2 { t[2..].join(" ") } else { String::new() };
    if ext.contains(['\0', '\n', '\r']) {
        return Err(E);
    }
    Ok(T(
        "extmap",
        vec![iv(id, U16)?, dir, s(t[1]), if t.len() > 2 { some(S(ext)) } else { No }],
    ))
}

fn payload(t: &str) -> R {
    if t == "*" {
        Ok(s("*"))
    } else {
        iv(t, U8)
    }
}

fn rtcp_fb(v: &str) -> R {
    let t: Vec<&str> = v.splitn(4, ' ').collect();
    if t.len() < 2 {
        return Err(E);
    }
    let p = t.get(2).copied();
    let among = |l: &[&str], need: bool| match p {
        Some(x) if l.contains(&x) => Ok(x),
        Some(_) => Err(UNS),
        None if need => Err(UNS),
        None => Ok(""),
    };
    let param = match t[1] {
        "ack" => among(&["rpsi", "app"], true)?,
        "ccm" => among(&["fir", "tmmbr", "tstr", "vbcm"], false)?,
        "nack" => among(&["sli", "pli", "rpsi", "app"], false)?,
        "trr-int" => {
            let x = p.ok_or(E)?;
            int(x, U32)?;
            x
        }
        "goog-remb" | "transport-cc" => among(&[], false)?,
        _ => return Err(UNS),
    };
    Ok(T(
        "rtcp-fb",
        vec![payload(t[0])?, s(t[1]), s(param), s(t.get(3).copied().unwrap_or(""))],
    ))
}

/// (name, index in the projected parameter list, kind of value)
pub const FMTP_INTS: [(&str, usize, u128); 17] = [
    ("packetization-mode", 0, 2),
    ("max-fs", 3, U32),
    ("max-cpb", 4, U32),
    ("max-dpb", 5, U32),
    ("max-br", 6, U32),
    ("max-mbps", 7, U32),
    ("max-fr", 8, U32),
    ("profile", 9, 2),
    ("level-idx", 10, 31),
    ("tier", 11, 1),
    ("maxplaybackrate", 12, U32),
    ("maxaveragebitrate", 13, U32),
    ("ptime", 18, U32),
    ("minptime", 19, U32),
    ("maxptime", 20, U32),
    ("apt", 23, U8),
    ("rtx-time", 23, U32),
];
pub const FMTP_BOOLS: [(&str, usize); 5] =
    [("level-asymmetry-allowed", 1), ("usedtx", 14), ("stereo", 15), ("useinbandfec", 16), ("cbr", 17)];

pub fn fmtp_default() -> Vec<V> {
    let z = U(0);
    let f = B(false);
    vec![
        z.clone(),
        f.clone(),
        U(0x42000a),
        z.clone(),
        z.clone(),
        z.clone(),
        z.clone(),
        z.clone(),
        z.clone(),
        No,
        No,
        No,
        U(48000),
        z.clone(),
        f.clone(),
        f.clone(),
        f.clone(),
        f,
        z.clone(),
        z.clone(),
        z,
        L(vec![]),
        S(String::new()),
        No,
        L(vec![]),
    ]
}

fn fmtp(v: &str) -> R {
    let Some(i) = v.find(' ') else { return Err(UNS) };
    let (pt, rest) = (&v[..i], &v[i + 1..]);
    let mut p = fmtp_default();
    let mut apt: Option<u128> = None;
    let mut rtx: Option<u128> = None;
    let mut unknown = vec![];
    if rest.contains('=') {
        for x in rest.split(';').map(str::trim).filter(|x| !x.is_empty()) {
            let Some(i) = x.find('=') else { return Err(E) };
            let (name, val) = (x[..i].to_ascii_lowercase(), &x[i + 1..]);
            if name == "profile-level-id" {
                let d = val.strip_prefix('+').unwrap_or(val);
                if d.is_empty() || !d.bytes().all(|b| b.is_ascii_hexdigit()) {
                    return Err(E);
                }
                let mut n: u128 = 0;
                for c in d.chars() {
                    n = n * 16 + u128::from(c.to_digit(16).unwrap());
                    if n > 0xff_ffff {
                        return Err(E);
                    }
                }
                p[2] = U(n);
            } else if let Some((_, k, max)) = FMTP_INTS.iter().find(|y| y.0 == name) {
                let n = int(val, *max);
                match name.as_str() {
                    "apt" => apt = Some(n?),
                    "rtx-time" => {
                        if apt.is_none() {
                            return Err(E);
                        }
                        rtx = Some(n?);
                    }
                    "profile" | "level-idx" | "tier" => p[*k] = some(U(n?)),
                    _ => p[*k] = U(n?),
                }
            } else if let Some((_, k)) = FMTP_BOOLS.iter().find(|y| y.0 == name) {
                p[*k] = B(int(val, 1)? == 1);
            } else {
                unknown.push(s(x));
            }
        }
        if let Some(a) = apt {
            p[23] = some(T("rtx", vec![U(a), opt(rtx, U)]));
        }
        p[24] = L(unknown);
    } else if rest.contains('/') {
        let e: Result<Vec<V>, Cls> = rest.split('/').map(|x| iv(x, 128)).collect();
        p[21] = L(e?);
    } else {
        let ok = rest.split(',').all(|x| match x.find('-') {
            None => int(x, 100).is_ok(),
            Some(i) => matches!((int(&x[..i], 100), int(&x[i + 1..], 100)), (Ok(a), Ok(b)) if a < b),
        });
        p[22] = s(if ok { rest } else { "0-15" });
    }
    Ok(T("fmtp", vec![iv(pt, U8)?, T("params", p)]))
}

fn direction(t: &str) -> Result<&str, Cls> {
    if t == "send" || t == "recv" {
        Ok(t)
    } else {
        Err(E)
    }
}

pub const RID_INTS: [&str; 6] =
    ["max-width", "max-height", "max-fps", "max-fs", "max-br", "max-pps"];
fn rid(v: &str) -> R {
    let t: Vec<&str> = v.splitn(3, ' ').collect();
    if t.len() < 2 {
        return Err(E);
    }
    let d = direction(t[1])?;
    let mut formats = vec![];
    let mut nums = [0u128; 6];
    let mut unknown = vec![];
    let mut depends = vec![];
    if t.len() == 3 {
        for (i, x) in t[2].split(';').map(str::trim).enumerate() {
            let Some(k) = x.find('=') else { return Err(E) };
            let (name, val) = (&x[..k], &x[k + 1..]);
            if name == "pt" {
                if i != 0 {
                    return Err(E);
                }
                for f in val.split(',') {
                    formats.push(iv(f.trim(), U16)?);
                }
            } else if let Some(k) = RID_INTS.iter().position(|y| *y == name) {
                nums[k] = int(val, U32)?;
            } else if name == "depends" {
                depends.extend(val.split(',').map(str::trim).filter(|y| !y.is_empty()).map(s));
            } else {
                unknown.push(s(x));
            }
        }
    }
    Ok(T(
        "rid",
        vec![
            s(t[0]),
            s(d),
            L(formats),
            L(nums.iter().map(|x| U(*x)).collect()),
            L(unknown),
            L(depends),
        ],
    ))
}

fn simulcast(v: &str) -> R {
    let t = toks(v);
    if t.len() < 2 {
        return Err(E);
    }
    let versions = |x: &str| -> R {
        let l = match x.find('=') {
            None => x,
            Some(i) if &x[..i] == "rid" => &x[i + 1..],
            Some(_) => return Err(E),
        };
        if l.contains('=') {
            return Err(E);
        }
        Ok(L(l
            .split(';')
            .map(|alt| {
                L(alt
                    .split(',')
                    .map(|id| match id.strip_prefix('~') {
                        Some(r) => T("sid", vec![s(r), B(true)]),
                        None => T("sid", vec![s(id), B(false)]),
                    })
                    .collect())
            })
            .collect()))
    };
    let d1 = direction(t[0])?;
    let v1 = versions(t[1])?;
    let v2 = if t.len() > 2 {
        if direction(t[2])? == d1 || t.len() < 4 {
            return Err(E);
        }
        versions(t[3])?
    } else {
        L(vec![])
    };
    Ok(T("simulcast", if d1 == "send" { vec![v1, v2] } else { vec![v2, v1] }))
}

/// Splits at `sep` outside of brackets; a piece counts one opening (closing) bracket at most.
fn pieces(t: &str, sep: char) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut depth = 0i32;
    let mut open = false;
    for p in t.split(sep) {
        if open {
            let l = out.last_mut().unwrap();
            l.push(sep);
            l.push_str(p);
        } else {
            out.push(p.to_string());
        }
        depth += i32::from(p.contains('[')) - i32::from(p.contains(']'));
        open = depth != 0;
    }
    out
}
fn braced(t: &str) -> Result<&str, Cls> {
    t.strip_prefix('[').and_then(|x| x.strip_suffix(']')).ok_or(E)
}
fn xyrange(t: &str) -> R {
    if !t.starts_with('[') {
        return Ok(T("values", vec![L(vec![iv(t, U32)?])]));
    }
    let b = braced(t)?;
    if b.contains(':') {
        let p: Vec<&str> = b.split(':').collect();
        match p.len() {
            2 => Ok(T("range", vec![iv(p[0], U32)?, iv(p[1], U32)?, No])),
            3 => {
                Ok(T("range", vec![iv(p[0], U32)?, iv(p[2], U32)?, some(iv(p[1], U32)?)]))
            }
            _ => Err(E),
        }
    } else {
        let l: Result<Vec<V>, Cls> = b.split(',').map(|x| iv(x, U32)).collect();
        let l = l?;
        if l.len() < 2 {
            return Err(E);
        }
        Ok(T("values", vec![L(l)]))
    }
}
fn frange(b: &str) -> R {
    let p: Vec<&str> = b.split('-').collect();
    if p.len() != 2 {
        return Err(E);
    }
    let (a, z) = (f32p(p[0])?, f32p(p[1])?);
    if a < z {
        Ok(T("range", vec![fl(f64::from(a)), fl(f64::from(z))]))
    } else {
        Err(E)
    }
}
fn imageset(t: &str) -> R {
    let p = pieces(t, ',');
    if p.len() < 2 {
        return Err(E);
    }
    let x = xyrange(p[0].strip_prefix("x=").ok_or(E)?)?;
    let y = xyrange(p[1].strip_prefix("y=").ok_or(E)?)?;
    let (mut sar, mut par, mut q) = (No, No, No);
    for k in &p[2..] {
        if let Some(r) = k.strip_prefix("sar=") {
            sar = some(if r.starts_with('[') {
                let b = braced(r)?;
                if b.contains('-') {
                    frange(b)?
                } else {
                    let l: Result<Vec<f32>, Cls> = b.split(',').map(f32p).collect();
                    let l = l?;
                    let mut last = 0.0;
                    for z in &l {
                        if !(*z > last) {
                            return Err(E);
                        }
                        last = *z;
                    }
                    if l.len() < 2 {
                        return Err(E);
                    }
                    T("values", vec![L(l.iter().map(|z| fl(f64::from(*z))).collect())])
                }
            } else {
                T("values", vec![L(vec![fl(f64::from(f32p(r)?))])])
            });
        } else if let Some(r) = k.strip_prefix("par=") {
            par = some(frange(braced(r)?)?);
        } else if let Some(r) = k.strip_prefix("q=") {
            q = some(fl(f64::from(f32p(r)?)));
        }
    }
    Ok(T("set", vec![x, y, sar, par, q]))
}
fn imageattr(v: &str) -> R {
    let p = pieces(v, ' ');
    let mut i = 0;
    let mut next = || {
        i += 1;
        p.get(i - 1)
    };
    let pt = payload(next().ok_or(E)?)?;
    let mut got: Vec<(&str, V)> = vec![];
    let mut tok = next();
    while let Some(d) = tok {
        let d = direction(d)?;
        if got.len() == 2 || got.iter().any(|g| g.0 == d) {
            return Err(E);
        }
        let first = next().ok_or(E)?;
        if first == "*" {
            got.push((d, s("*")));
            tok = next();
        } else {
            let mut sets = vec![imageset(braced(first)?)?];
            loop {
                tok = next();
                match tok {
                    Some(x) if x.starts_with('[') => sets.push(imageset(braced(x)?)?),
                    _ => break,
                }
            }
            got.push((d, L(sets)));
        }
    }
    if got.is_empty() {
        return Err(E);
    }
    let get = |d: &str| got.iter().find(|g| g.0 == d).map_or(L(vec![]), |g| g.1.clone());
    Ok(T("imageattr", vec![pt, get("send"), get("recv")]))
}

// ---------------------------------------------------------------- lines and documents

/// All acceptable classes of a refused line.
pub fn line_all(text: &str) -> Result<V, Vec<Cls>> {
    let one = |c: Cls| vec![c];
    let Some(i) = text.find('=') else { return Err(one(E)) };
    let ty = text[..i].trim();
    if ty.len() != 1 {
        return Err(one(E));
    }
    let raw = &text[i + 1..];
    let v = raw.trim();
    let ty = ty.to_ascii_lowercase();
    if v.is_empty() && ty != "s" {
        return Err(one(E));
    }
    let w = |n: &'static str, r: R| r.map(|x| T(n, vec![x])).map_err(|c| vec![c]);
    match ty.as_str() {
        "a" => w("a=", attr(v)),
        "b" => w("b=", bandwidth(v)),
        "c" => w("c=", connection(v)),
        "m" => media_all(v).map(|x| T("m=", vec![x])),
        "o" => w("o=", origin(v)),
        "s" => Ok(T("s=", vec![s(raw)])),
        "t" => w("t=", timing(v)),
        "v" => w("v=", version(v)),
        _ => Err(one(E)),
    }
}
pub fn line(text: &str) -> R {
    line_all(text).map_err(|c| c[0])
}

/// The verdict on a document.
#[derive(Debug)]
pub enum Ref {
    Ok(Box<Sess>, Vec<Loc>),
    /// Rejected because of one of these lines (strict mode: unsupported; else in error).
    Lines(Vec<Loc>, bool),
    /// Rejected because of the order or consistency of the lines; the line numbers that may be
    /// named, or any number if empty.
    Seq(Vec<usize>),
}

pub fn split_lines(text: &str) -> Vec<String> {
    let mut out = vec![];
    let mut rest = text;
    while !rest.is_empty() {
        match rest.find('\n') {
            Some(i) => {
                let l = &rest[..i];
                out.push(l.strip_suffix('\r').unwrap_or(l).to_string());
                rest = &rest[i + 1..];
            }
            None => {
                out.push(rest.to_string());
                rest = "";
            }
        }
    }
    out
}

fn kids(v: &V) -> &[V] {
    match v {
        T(_, k) | L(k) => k,
        _ => &[],
    }
}

/// The cross-line rules of C06.
pub fn consistent(x: &Sess) -> bool {
    let has = |a: &[V], n: &str| a.iter().any(|y| name_of(y) == n);
    if has(&x.attrs, "extmap") && x.media.iter().any(|m| has(&m.attrs, "extmap")) {
        return false;
    }
    x.media.iter().all(|m| {
        if has(&m.attrs, "rtcp-mux-only") && !has(&m.attrs, "rtcp-mux") {
            return false;
        }
        let fmts: Vec<String> = kids(&kids(&kids(&m.line)[4])[0])
            .iter()
            .map(|f| match f {
                U(n) => n.to_string(),
                S(t) => t.clone(),
                _ => String::new(),
            })
            .collect();
        let rids: Vec<&[V]> =
            m.attrs.iter().filter(|a| name_of(a) == "rid").map(|a| kids(a)).collect();
        for r in &rids {
            for f in kids(&r[2]) {
                let U(n) = f else { return false };
                if !fmts.contains(&n.to_string()) {
                    return false;
                }
            }
        }
        for a in m.attrs.iter().filter(|a| name_of(a) == "simulcast") {
            for (i, d) in ["send", "recv"].iter().enumerate() {
                for alt in kids(&kids(a)[i]) {
                    for id in kids(alt) {
                        if !rids.iter().any(|r| r[0] == kids(id)[0] && r[1] == s(d)) {
                            return false;
                        }
                    }
                }
            }
        }
        true
    })
}

pub fn doc(text: &str, strict: bool) -> Ref {
    let lines = split_lines(text);
    let mut good: Vec<(usize, V)> = vec![];
    let mut bad = vec![];
    let mut unsup = vec![];
    let mut skipping = false;
    for (n, l) in lines.iter().enumerate() {
        if l.trim().is_empty() {
            continue;
        }
        let loc = Loc { number: n, text: l.clone() };
        match line_all(l) {
            Ok(v) => {
                if name_of(&v) == "m=" {
                    skipping = false;
                }
                if !skipping {
                    good.push((n, v));
                }
            }
            Err(c) if c.contains(&E) => bad.push(loc),
            Err(_) => {
                if l.trim().to_ascii_lowercase().starts_with('m') {
                    skipping = true;
                }
                unsup.push(loc);
            }
        }
    }
    if strict && !unsup.is_empty() {
        unsup.truncate(1);
        return Ref::Lines(unsup, true);
    }
    if text.is_empty() {
        return Ref::Lines(vec![Loc { number: 0, text: String::new() }], false);
    }
    if !bad.is_empty() {
        return Ref::Lines(bad, false);
    }
    if good.len() < 4 {
        return Ref::Seq(vec![]);
    }
    let start = ["v=", "o=", "s="];
    if (0..3).any(|i| name_of(&good[i].1) != start[i]) {
        // Any of the first three lines that is not what its place asks for, or any of these
        // three types elsewhere.
        return Ref::Seq(
            good.iter()
                .enumerate()
                .filter(|(i, (_, v))| {
                    if *i < 3 { name_of(v) != start[*i] } else { start.contains(&name_of(v)) }
                })
                .map(|(_, (n, _))| *n)
                .collect(),
        );
    }
    let val = |v: &V| kids(v)[0].clone();
    let name = match val(&good[2].1) {
        S(x) => x.trim().to_string(),
        _ => String::new(),
    };
    let mut x = Sess {
        version: val(&good[0].1),
        origin: val(&good[1].1),
        name: if name.is_empty() { No } else { some(S(name)) },
        connection: No,
        bandwidth: vec![],
        timing: No,
        attrs: vec![],
        media: vec![],
    };
    let mut misplaced = vec![];
    for (n, v) in good.drain(..).skip(3) {
        let y = val(&v);
        match (name_of(&v), x.media.last_mut()) {
            ("m=", _) => {
                x.media.push(Med { line: y, connection: No, bandwidth: vec![], attrs: vec![] })
            }
            ("c=", None) => x.connection = some(y),
            ("c=", Some(m)) => {
                if m.connection != No {
                    misplaced.push(n);
                } else {
                    m.connection = some(y);
                }
            }
            ("b=", None) => x.bandwidth.push(y),
            ("b=", Some(m)) => m.bandwidth.push(y),
            ("t=", None) => x.timing = some(y),
            ("a=", None) => {
                if MEDIA_ONLY.contains(&name_of(&y)) {
                    misplaced.push(n);
                } else {
                    x.attrs.push(y);
                }
            }
            ("a=", Some(m)) => {
                if SESSION_ONLY.contains(&name_of(&y)) {
                    misplaced.push(n);
                } else if name_of(&y) != "dtls-message" {
                    m.attrs.push(y);
                }
            }
            _ => misplaced.push(n),
        }
    }
    let skeleton = x.timing != No
        && (x.connection != No || x.media.iter().all(|m| m.connection != No));
    if !misplaced.is_empty() {
        return Ref::Seq(if skeleton { misplaced } else { vec![] });
    }
    if !skeleton || !consistent(&x) {
        return Ref::Seq(vec![]);
    }
    Ref::Ok(Box::new(x), unsup)
}

/// Compares what the implementation did with the verdict of the model.
pub fn agrees(r: &Ref, o: &Out) -> Result<&'static str, String> {
    match (r, o) {
        (Ref::Ok(x, w), Out::Ok(y, v)) => {
            if **x != *y {
                return Err(format!("another session than expected (expected vs found): {}", diff(x, y)));
            }
            if w != v {
                return Err(format!("expected warnings {w:?}, found {v:?}"));
            }
            Ok(if w.is_empty() { "accepted" } else { "accepted-with-warnings" })
        }
        (Ref::Lines(l, true), Out::Unsup(f)) | (Ref::Lines(l, false), Out::Line(f)) => {
            if l.contains(f) {
                Ok(o.label())
            } else {
                Err(format!("reported {f:?}, but the offending lines are {l:?}"))
            }
        }
        (Ref::Seq(n), Out::Seq(f)) => {
            if n.is_empty() || n.contains(f) {
                Ok("sequence-error")
            } else {
                Err(format!("sequence error for line {f}, but the misplaced lines are {n:?}"))
            }
        }
        (Ref::Ok(..), _) => Err(format!("a valid document was refused: {}", short(o))),
        (_, Out::Ok(y, _)) => Err(format!("a document to be refused ({r:?}) was accepted: {y:?}")),
        _ => Err(format!("expected {r:?}, found {}", short(o))),
    }
}
pub fn short(o: &Out) -> String {
    match o {
        Out::Ok(..) => "accepted".into(),
        Out::Line(l) => format!("error in line {} {:?}", l.number, l.text),
        Out::Unsup(l) => format!("unsupported line {} {:?}", l.number, l.text),
        Out::Seq(n) => format!("sequence error at {n}"),
    }
}
