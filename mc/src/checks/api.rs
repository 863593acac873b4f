//! C21 and C22: sessions and media sections as state machines driven through the API.
use super::docs::one_per_name;
use super::roundtrip::{prints_nothing, without_default_fmtp};
use super::*;
use crate::alpha::*;
use crate::refparse::name_of;
use webrtc_sdp::address::{AddressType, ExplicitlyTypedAddress as Typed};
use webrtc_sdp::attribute_type::*;
use webrtc_sdp::media_type::*;
use webrtc_sdp::*;

pub struct MediaOps;
pub static C21: MediaOps = MediaOps;
pub struct SessionOps;
pub static C22: SessionOps = SessionOps;

fn attribute(t: &str) -> Result<SdpAttribute, String> {
    t.parse().map_err(|e| format!("{t}: {e}"))
}
fn typed(line: &str) -> Result<SdpType, String> {
    parse_sdp_line(line, 0).map(|l| l.sdp_type).map_err(|e| format!("{line}: {e}"))
}
fn connection(t: &str) -> Result<SdpConnection, String> {
    match typed(&format!("c={t}"))? {
        SdpType::Connection(c) => Ok(c),
        _ => Err("not a connection".into()),
    }
}
fn bandwidth(t: &str) -> Result<SdpBandwidth, String> {
    match typed(&format!("b={t}"))? {
        SdpType::Bandwidth(c) => Ok(c),
        _ => Err("not a bandwidth".into()),
    }
}
fn mline(t: &str) -> Result<SdpMediaLine, String> {
    match typed(&format!("m={t}"))? {
        SdpType::Media(c) => Ok(c),
        _ => Err("not a media line".into()),
    }
}
/// A media section in text form, lines separated by '|'; the model's media next to it.
fn section(t: &str) -> Result<(SdpMedia, Med), String> {
    let mut it = t.split('|');
    let ml = mline(it.next().unwrap_or(""))?;
    let mut want = Med { line: proj::mline(&ml), connection: No, bandwidth: vec![], attrs: vec![] };
    let mut m = SdpMedia::new(ml);
    for l in it {
        match l.split_at(2) {
            ("a=", a) => {
                let a = attribute(a)?;
                want.attrs.push(proj::attr(&a));
                m.add_attribute(a).map_err(|e| e.to_string())?;
            }
            ("b=", b) => {
                let b = bandwidth(b)?;
                want.bandwidth.push(proj::bw(&b));
                m.add_bandwidth(b);
            }
            (_, c) => {
                let c = connection(c)?;
                want.connection = some(proj::conn(&c));
                m.set_connection(c);
            }
        }
    }
    Ok((m, want))
}
fn types() -> Vec<(&'static str, SdpAttribute)> {
    one_per_name().iter().map(|t| attribute(t).unwrap()).map(|a| (name_of(&proj::attr(&a)), a)).collect()
}
fn allowed_in_media(n: &str) -> bool {
    !refparse::SESSION_ONLY.contains(&n) && n != "dtls-message"
}

// ------------------------------------------------------------------------------------------- C21

const BASES: &[&str] = &[
    "video 7 RTP/AVP 96 97",
    "application 9 UDP/DTLS/SCTP webrtc-datachannel",
    "application 9 DTLS/SCTP 5000",
    "audio 0/3 UDP/TLS/RTP/SAVPF 0|b=AS:5|c=IN IP4 1.2.3.4|a=rtpmap:0 PCMU/8000|a=mid:0|a=fmtp:0 x=1|a=rtcp-fb:0 nack|a=sendrecv|a=rtcp-fb:* ccm fir",
    "application 9 TCP/DTLS/SCTP x y|a=sctp-port:1|a=sctpmap:5 webrtc-datachannel 6|a=max-message-size:7|a=sctp-port:2",
    "video 9 RTP/SAVPF 96|a=candidate:0 1 UDP 1 1.1.1.1 1 typ host|a=candidate:1 1 UDP 1 1.1.1.1 1 typ host|a=end-of-candidates",
];
const OPS: &[&str] = &[
    "add rtpmap:96 VP8/90000",
    "add rtpmap:97 opus/48000/2",
    "set rtpmap:98 H264/90000",
    "add fmtp:96 x=1",
    "set fmtp:97 max-fs=1",
    "add rtcp-fb:96 nack",
    "add sendrecv",
    "set sendonly",
    "set sendrecv",
    "add mid:a",
    "set mid:b",
    "add sctp-port:1",
    "add group:BUNDLE a",
    "set ice-lite",
    "del rtpmap",
    "del mid",
    "del sctp-port",
    "nocodecs",
    "codec 100 VP9 90000",
    "codec 0 PCMU 8000",
    "dc name 5000 256 0",
    "dc other 65535 65535 4294967295",
    "port 4294967295",
    "conn IN IP6 ::1",
    "conn IN IP4 h.example/3/4",
    "bw AS:1",
    "bw X:2",
    "add max-message-size:9",
];

/// Applies one operation to the real section and to the model.
fn media_op(m: &mut SdpMedia, w: &mut Med, op: &str) -> Result<(), String> {
    let (name, arg) = op.split_once(' ').unwrap_or((op, ""));
    let T("m", line) = &mut w.line else { return Err("model".into()) };
    trans(1);
    match name {
        "add" | "set" => {
            let a = attribute(arg)?;
            let v = proj::attr(&a);
            let n = name_of(&v);
            let ok = allowed_in_media(n);
            let r = if name == "add" { m.add_attribute(a) } else { m.set_attribute(a) };
            if r.is_ok() != ok {
                return Err(format!("{op}: gives {r:?}"));
            }
            if ok {
                if name == "set" {
                    w.attrs.retain(|x| name_of(x) != n);
                }
                w.attrs.push(v);
            }
        }
        "del" => {
            let t = types();
            let (n, a) = t.iter().find(|x| x.0 == arg).ok_or("unknown name")?;
            m.remove_attribute(SdpAttributeType::from(a));
            w.attrs.retain(|x| name_of(x) != *n);
        }
        "nocodecs" => {
            m.remove_codecs();
            if let T(_, f) = &mut line[4] {
                f[0] = L(vec![]);
            }
            w.attrs.retain(|x| !["rtpmap", "fmtp", "rtcp-fb", "sctpmap", "sctp-port"].contains(&name_of(x)));
        }
        "codec" => {
            let p: Vec<&str> = arg.split(' ').collect();
            let mut r = SdpAttributeRtpmap::new(p[0].parse().unwrap(), p[1].into(), p[2].parse().unwrap());
            r.channels = p.get(3).map(|c| c.parse().unwrap());
            w.attrs.push(proj::attr(&SdpAttribute::Rtpmap(r.clone())));
            let pt = r.payload_type;
            m.add_codec(r).map_err(|e| e.to_string())?;
            if let T(k, f) = &mut line[4] {
                if let L(l) = &mut f[0] {
                    l.push(if *k == "ints" { u(pt) } else { S(pt.to_string()) });
                }
            }
        }
        "dc" => {
            let p: Vec<&str> = arg.split(' ').collect();
            let (port, streams, size): (u16, u16, u32) = (p[1].parse().unwrap(), p[2].parse().unwrap(), p[3].parse().unwrap());
            m.add_datachannel(p[0].into(), port, streams, size).map_err(|e| e.to_string())?;
            let new = line[3] == s("UDP/DTLS/SCTP") || line[3] == s("TCP/DTLS/SCTP");
            line[0] = s("application");
            let mut put = |v: V| {
                w.attrs.retain(|x| name_of(x) != name_of(&v));
                w.attrs.push(v);
            };
            if new {
                line[4] = T("strs", vec![L(vec![s(p[0])])]);
                put(T("sctp-port", vec![u(port)]));
            } else {
                line[4] = T("ints", vec![L(vec![u(port)])]);
                put(T("sctpmap", vec![u(port), u(streams)]));
            }
            if size > 0 {
                put(T("max-message-size", vec![u(size)]));
            }
        }
        "port" => {
            let p: u32 = arg.parse().unwrap();
            m.set_port(p);
            line[1] = u(p);
        }
        "conn" => {
            let c = connection(arg)?;
            w.connection = some(proj::conn(&c));
            m.set_connection(c);
        }
        "bw" => {
            let b = bandwidth(arg)?;
            w.bandwidth.push(proj::bw(&b));
            m.add_bandwidth(b);
        }
        o => return Err(format!("unknown operation {o}")),
    }
    Ok(())
}
/// Compares every look-up with the model.
fn look(m: &SdpMedia, w: &Med) -> Result<(), String> {
    for (n, a) in types() {
        let want: Vec<&V> = w.attrs.iter().filter(|x| name_of(x) == n).collect();
        let got: Vec<V> = m.get_attributes_of_type(SdpAttributeType::from(&a)).into_iter().map(proj::attr).collect();
        if want.len() != got.len() || want.iter().zip(&got).any(|(x, y)| **x != *y) {
            return Err(format!("the attributes of type {n} are {got:?} instead of {want:?}"));
        }
        let one = m.get_attribute(SdpAttributeType::from(&a)).map(proj::attr);
        if one.as_ref() != want.first().copied() {
            return Err(format!("the attribute of type {n} is {one:?} instead of {:?}", want.first()));
        }
    }
    trans(2 * 43);
    Ok(())
}
fn mdiff(a: &Med, b: &Med) -> String {
    format!("expected {a:?}, found {b:?}")
}

impl Check for MediaOps {
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> &'static str {
        "all sequences up to depth 4 (thorough: 5 on the first) of 28 operations on 6 media sections, compared with a model after every operation, all \
         look-ups in every final state; for every ordered pair of sample attributes all sequences of add/set/remove up to depth 3; \
         boundary arguments; list lengths"
    }
    fn must_see(&self) -> Vec<&'static str> {
        vec!["edited"]
    }
    fn explore(&self, e: &Engine) {
        let k = OPS.len();
        for (i, b) in BASES.iter().enumerate() {
            let d = e.pick(if i < 2 { 4 } else { 3 }, if i < 1 { 5 } else { 4 });
            e.sweep("media", &format!("section {i}: all sequences of up to {d} operations"), seq_count(k, d), |j| {
                let mut t = b.to_string();
                for x in seq_at(k, j) {
                    t.push('\n');
                    t.push_str(OPS[x]);
                }
                t
            });
        }
        let sm = samples();
        let n = sm.len();
        let forms: Vec<Vec<usize>> = seqs(&[0, 1, 2, 3, 4, 5], 0, 3);
        let nf = forms.len();
        let step = e.pick(7usize, 2);
        e.sweep("media", "pairs of samples, all sequences of add, set and remove", n * n * nf / step, |j| {
            let j = j * step + j % step;
            let (a, b, f) = (&sm[j / nf / n % n], &sm[j / nf % n], &forms[j % nf]);
            let mut t = BASES[0].to_string();
            for x in f {
                t.push('\n');
                t.push_str(&match x {
                    0 => format!("add {a}"),
                    1 => format!("add {b}"),
                    2 => format!("set {a}"),
                    3 => format!("set {b}"),
                    4 => format!("del {}", attr_name(a)),
                    _ => format!("del {}", attr_name(b)),
                });
            }
            t
        });
        // every sample between others, removed and replaced
        let one = one_per_name();
        let m = one.len();
        e.sweep("media", "every removal from a section with one attribute of every name", m * 3 + 4, |j| {
            let mut t = BASES[0].to_string();
            for a in &one {
                t.push_str(&format!("\nadd {a}"));
            }
            t.push_str(&match (j / 3, j % 3) {
                (x, 0) if x < m => format!("\ndel {}", attr_name(&one[x])),
                (x, 1) if x < m => format!("\nset {}", one[x]),
                (x, _) if x < m => format!("\nadd {}\ndel {}", one[x], attr_name(&one[x])),
                (_, 0) => "\nnocodecs".to_string(),
                _ => "\ndc x 1 2 3\nnocodecs".to_string(),
            });
            t
        });
        // what an operation does must not depend on the kind, the transport, the port, the formats
        let ml: Vec<String> = super::ctx::mlines(e.thorough()).iter().map(|l| l[2..].trim().to_string()).collect();
        let d = e.pick3(2, 2, 3);
        let n = seq_count(k, d);
        e.sweep("media", &format!("every media line, all sequences of up to {d} operations"), ml.len() * n, |j| {
            let mut t = ml[j / n].clone();
            for x in seq_at(k, j % n) {
                t.push('\n');
                t.push_str(OPS[x]);
            }
            t
        });
        let w: Vec<String> = words().into_iter().filter(|w| !w.contains('/')).collect();
        let after = ["nocodecs", "codec 96 x 1", "add rtpmap:96 y/2", "add fmtp:5 x=1", "del rtpmap", "dc n 1 2 3"];
        e.sweep("media", "codecs and data channels of every name", w.len() * 10 * BASES.len(), |j| {
            let (f, b, w) = (j % 10, BASES[j / 10 % BASES.len()], &w[j / 10 / BASES.len()]);
            match f {
                0..=5 => format!("{b}\ncodec 5 {w} 8000\n{}", after[f]),
                6 => format!("{b}\ncodec 96 {w} 90000 2\ncodec 97 {w} 90000\ncodec 96 x 1"),
                7 => format!("{b}\ncodec 0 y 1\ncodec 101 {w} 48000 1"),
                8 => format!("{b}\ndc {w} 5000 256 0\ndc {w} 5 6 7"),
                _ => format!("{b}\ncodec 96 x 1\ndc {w} 65535 65535 65536\ncodec 96 {w} 5"),
            }
        });
        let sm = samples();
        e.sweep("media", "every sample around every operation", sm.len() * k * 4 * BASES.len(), |j| {
            let (b, f, o, a) = (BASES[j % BASES.len()], j / BASES.len() % 4, OPS[j / BASES.len() / 4 % k], &sm[j / BASES.len() / 4 / k]);
            match f {
                0 => format!("{b}\nadd {a}\n{o}"),
                1 => format!("{b}\n{o}\nset {a}"),
                2 => format!("{b}\nset {a}\n{o}\nadd {a}"),
                _ => format!("{b}\nadd {a}\nadd {a}\n{o}\ndel {}", attr_name(a)),
            }
        });
        // every two samples behind several others
        let few: Vec<String> = one_per_name();
        let m = few.len();
        let fill = [2, 3, 5, 8, 13, 40];
        e.sweep("media", "every two attributes behind and around many others", m * m * fill.len() * 3, |j| {
            let (f, n, j) = (j % 3, fill[j / 3 % fill.len()], j / 3 / fill.len());
            let (a, b) = (&few[j % m], &few[j / m]);
            let o: String = (0..n).map(|i| format!("\nadd ssrc:{i} cname:x{i}")).collect();
            match f {
                0 => format!("{}{o}\nadd {a}\nadd {b}", BASES[0]),
                1 => format!("{}\nadd {a}{o}\nset {b}\nset {a}", BASES[1]),
                _ => format!("{}{o}\nset {a}\ncodec 96 x 1\nadd {b}\ndel {}", BASES[0], attr_name(a)),
            }
        });
        let nums: Vec<u64> = nums32();
        e.sweep("media", "every number as an argument", nums.len() * 4 * BASES.len(), |j| {
            let (b, f, n) = (BASES[j % BASES.len()], j / BASES.len() % 4, nums[j / BASES.len() / 4]);
            match f {
                0 => format!("{b}\nport {n}\ncodec 96 x {n}\ncodec 97 y {n} {n}"),
                1 => format!("{b}\ncodec {} x {n} {n}\nnocodecs\ncodec {} x 8000 {n}", n & 255, n & 255),
                2 => format!("{b}\ndc n {} {} {n}\ndc m {} 5 0", n & 65535, n & 65535, n & 65535),
                _ => format!("{b}\nport {n}\nbw AS:{n}\nbw X:{n}\ndc n 5 6 {n}"),
            }
        });
        let mut l = vec![];
        for b in BASES {
            for p in 0..=255u32 {
                l.push(format!("{b}\ncodec {p} x 1"));
                l.push(format!("{b}\ncodec {p} x 4294967295 2\nnocodecs\ncodec {} y 0", 255 - p));
            }
            for p in ["0", "1", "9", "255", "256", "65534", "65535"] {
                for q in ["0", "1", "256", "65535"] {
                    for r in ["0", "1", "65535", "65536", "4294967295"] {
                        l.push(format!("{b}\ndc n {p} {q} {r}"));
                        l.push(format!("{b}\nadd max-message-size:7\nadd max-message-size:8\ndc n {p} {q} {r}\ndc m {q} {p} 0"));
                    }
                }
            }
            for p in ["0", "1", "65535", "65536", "4294967295"] {
                l.push(format!("{b}\nport {p}"));
            }
            for n in lens(e).into_iter().filter(|n| *n <= 300) {
                l.push(format!("{b}{}\ndel mid\nadd mid:z", (0..n).map(|i| format!("\nadd mid:{i}\nadd label:{i}")).collect::<String>()));
                l.push(format!("{b}{}\nnocodecs\nadd mid:z", (0..n).map(|i| format!("\ncodec {} c{i} {i}\nadd label:{i}", i % 128)).collect::<String>()));
                l.push(format!("{b}{}", (0..n).map(|i| format!("\nbw B{i}:{i}\nconn IN IP4 1.2.3.{}", i % 256)).collect::<String>()));
            }
        }
        for k in ["audio", "video", "application"] {
            for p in refparse::PROTOS {
                l.push(format!("{k} 9 {p} 0\ndc n 5 6 7"));
                l.push(format!("{k} 9 {p} 0\ncodec 0 x 1\ndc n 5 6 7\ncodec 1 y 1\nnocodecs\ncodec 2 z 1"));
            }
        }
        e.list("media", "boundary arguments, list lengths, all kinds and protocols", l);
    }
    fn decide(&self, _: &str, payload: &str) -> Verdict {
        let mut it = payload.split('\n');
        let (mut m, mut w) = section(it.next().unwrap_or(""))?;
        if proj::media(&m) != w {
            return Err(format!("at the start: {}", mdiff(&w, &proj::media(&m))));
        }
        for op in it {
            media_op(&mut m, &mut w, op)?;
            if proj::media(&m) != w {
                return Err(format!("after {op}: {}", mdiff(&w, &proj::media(&m))));
            }
        }
        look(&m, &w)?;
        let c = m.clone();
        if proj::media(&c) != w {
            return Err("the clone differs".into());
        }
        state(&w);
        trace();
        Ok("edited")
    }
}

// ------------------------------------------------------------------------------------------- C22

const SOPS: &[&str] = &[
    "conn IN IP4 1.2.3.4/5",
    "conn IN IP6 h.example",
    "bw AS:1",
    "bw X:2",
    "time 0 0",
    "time 1 18446744073709551615",
    "attr ice-lite",
    "attr group:BUNDLE 0 1",
    "attr fingerprint:sha-1 00:01:02:03:04:05:06:07:08:09:0a:0b:0c:0d:0e:0f:10:11:12:13",
    "attr sendrecv",
    "attr mid:0",
    "attr extmap:1 u",
    "media audio sendrecv 9 RTP/AVP 10.0.0.1",
    "media video recvonly 0 UDP/TLS/RTP/SAVPF 0.0.0.0",
    "media application inactive 65535 UDP/DTLS/SCTP ::1",
    "media video ice-lite 9 RTP/AVP 10.0.0.1",
    "codec 96 VP8 90000",
    "mset mid:7",
    "mset rid:a send pt=96",
    "dc x 5000 256 65536",
    "extend video 7 UDP/TLS/RTP/SAVPF 96 97|c=IN IP4 2.2.2.2|b=CT:1|a=mid:1|a=sendonly",
    "extend application 0/2 DTLS/SCTP a b||audio 1 RTP/AVP 0|a=label:x",
    "extend ",
    "vec b=AS:7|a=ice-pwd:x|t=5 6|c=IN IP6 ::2|a=ice-lite",
    "vec a=mid:1|b=AS:9",
    "vec v=0|b=AS:9",
    "vec m=audio 9 RTP/AVP 0|b=AS:9",
];
const NAMES: &[&str] = &["-", "", " ", "  a b ", "name", "é", "s=x", "\t", "a  b", "a\tb   c  ", "a=b=c"];
fn nums64() -> Vec<u64> {
    let mut v: Vec<u64> = (0..=70).collect();
    for b in 3..64 {
        v.extend([(1 << b) - 1, 1 << b, (1 << b) + 1]);
    }
    for d in 2..20 {
        v.extend([10u64.pow(d) - 1, 10u64.pow(d)]);
    }
    v.push(u64::MAX);
    v.sort_unstable();
    v.dedup();
    v
}
fn nums32() -> Vec<u64> {
    nums64().into_iter().filter(|n| *n <= u64::from(u32::MAX)).collect()
}
const ORIGINS: &[&str] = &["- 0 0 IN IP4 127.0.0.1", "user 18446744073709551615 1 IN IP6 ::1", "u 1 2 IN IP6 h.example", "é 1 2 IN IP4 H.example"];

fn session_op(x: &mut SdpSession, w: &mut Sess, op: &str) -> Result<bool, String> {
    let (name, arg) = op.split_once(' ').unwrap_or((op, ""));
    trans(1);
    match name {
        "conn" => {
            let c = connection(arg)?;
            w.connection = some(proj::conn(&c));
            x.set_connection(c);
        }
        "bw" => {
            let b = bandwidth(arg)?;
            w.bandwidth.push(proj::bw(&b));
            x.add_bandwidth(b);
        }
        "time" => {
            let p: Vec<u64> = arg.split(' ').map(|n| n.parse().unwrap()).collect();
            let t = SdpTiming { start: p[0], stop: p[1] };
            w.timing = some(proj::timing(&t));
            x.set_timing(t);
        }
        "attr" => {
            let a = attribute(arg)?;
            let v = proj::attr(&a);
            let ok = !refparse::MEDIA_ONLY.contains(&name_of(&v));
            let r = x.add_attribute(a);
            if r.is_ok() != ok {
                return Err(format!("{op}: gives {r:?}"));
            }
            if ok {
                w.attrs.push(v);
            }
            return Ok(ok);
        }
        "media" => {
            let p: Vec<&str> = arg.split(' ').collect();
            let a = attribute(p[1])?;
            let v = proj::attr(&a);
            let ok = allowed_in_media(name_of(&v));
            let ml = mline(&format!("{} 9 {} 0", p[0], p[3]))?;
            let at: Typed = match p[4].split_once('@') {
                Some((h, t)) => Typed::Fqdn { address_type: if t == "4" { AddressType::IpV4 } else { AddressType::IpV6 }, domain: h.into() },
                None => p[4].parse::<std::net::IpAddr>().unwrap().into(),
            };
            let r = x.add_media(ml.media.clone(), a, p[2].parse().unwrap(), ml.proto.clone(), at.clone());
            if r.is_ok() != ok {
                return Err(format!("{op}: gives {r:?}"));
            }
            if ok {
                w.media.push(Med {
                    line: T(
                        "m",
                        vec![
                            s(p[0]),
                            u(p[2].parse::<u32>().unwrap()),
                            match x.media.last() {
                                // the count that stands for one port may be written or not
                                Some(m) if m.get_port_count() == 0 => U(0),
                                _ => U(1),
                            },
                            s(p[3]),
                            match x.media.last().map(|m| m.get_formats()) {
                                Some(SdpFormatList::Strings(_)) => T("strs", vec![L(vec![])]),
                                _ => T("ints", vec![L(vec![])]),
                            },
                        ],
                    ),
                    connection: some(T("c", vec![proj::taddr(&at), No, No])),
                    bandwidth: vec![],
                    attrs: vec![v],
                });
            }
            return Ok(ok);
        }
        "codec" | "dc" | "mset" => {
            let (Some(m), Some(v)) = (x.media.last_mut(), w.media.last_mut()) else { return Ok(false) };
            let op = op.replace("mset", "set");
            media_op(m, v, &op)?;
        }
        "extend" => {
            let mut all = vec![];
            for t in arg.split("||").filter(|t| !t.is_empty()) {
                let (m, v) = section(t)?;
                all.push(m);
                w.media.push(v);
            }
            x.extend_media(all);
        }
        "vec" => {
            let mut lines = vec![];
            let mut ok = true;
            for (i, l) in arg.split('|').enumerate() {
                let p = parse_sdp_line(l, i).map_err(|e| format!("{l}: {e}"))?;
                let v = proj::line(&p.sdp_type);
                lines.push(p);
                if !ok {
                    continue;
                }
                match v {
                    T("a=", k) => {
                        if refparse::MEDIA_ONLY.contains(&name_of(&k[0])) {
                            ok = false;
                        } else {
                            w.attrs.push(k[0].clone());
                        }
                    }
                    T("b=", k) => w.bandwidth.push(k[0].clone()),
                    T("c=", k) => w.connection = some(k[0].clone()),
                    T("t=", k) => w.timing = some(k[0].clone()),
                    _ => ok = false,
                }
            }
            let r = x.parse_session_vector(&mut lines);
            if r.is_ok() != ok {
                return Err(format!("{op}: gives {r:?}"));
            }
            if ok && !lines.is_empty() {
                return Err(format!("{op}: {} lines are left", lines.len()));
            }
            return Ok(ok);
        }
        o => return Err(format!("unknown operation {o}")),
    }
    Ok(true)
}
/// Formats of application sections are read as strings, whatever they were.
fn as_strings(mut x: Sess) -> Sess {
    for m in &mut x.media {
        if let T(_, k) = &mut m.line {
            if k[0] == s("application") {
                if let T("ints", f) = &k[4] {
                    if let L(l) = &f[0] {
                        k[4] = T("strs", vec![L(l.iter().map(|y| S(format!("{y:?}"))).collect())]);
                    }
                }
            }
        }
    }
    without_default_fmtp(x)
}
fn has_formats(m: &Med) -> bool {
    matches!(&m.line, T(_, k) if matches!(&k[4], T(_, f) if matches!(&f[0], L(l) if !l.is_empty())))
}

impl Check for SessionOps {
    fn id(&self) -> &'static str {
        "C22"
    }
    fn rule(&self) -> &'static str {
        "all sequences up to depth 4 (thorough 5) of 27 building operations, compared with a model after every operation, with all look-ups; special addresses, words, media lines and every \
         sample attribute through the session and a section in all orders with two others; all origins x names x kinds x protocols; every final state that \
         is complete is printed and parsed strictly and must have the same content"
    }
    fn must_see(&self) -> Vec<&'static str> {
        vec!["built", "refused-op", "survives"]
    }
    fn explore(&self, e: &Engine) {
        let (k, d) = (SOPS.len(), e.pick(4, 5));
        e.sweep("session", &format!("all sequences of up to {d} operations"), seq_count(k, d), |i| {
            let mut t = format!("{}\n{}", ORIGINS[0], NAMES[0]);
            for x in seq_at(k, i) {
                t.push('\n');
                t.push_str(SOPS[x]);
            }
            t
        });
        // complete sessions: the same after timing and connection
        let d = e.pick(3, 4);
        e.sweep("session", "complete sessions: all sequences after timing, connection and a section", seq_count(k, d), |i| {
            let mut t = format!("{}\n{}\ntime 0 0\nconn IN IP4 1.1.1.1\nmedia video sendrecv 9 RTP/AVP 10.0.0.1\ncodec 96 x 1", ORIGINS[1], NAMES[4]);
            for x in seq_at(k, i) {
                t.push('\n');
                t.push_str(SOPS[x]);
            }
            t
        });
        let sm = samples();
        let n = sm.len();
        e.sweep("session", "every pair of sample attributes in the session and in a section, before and after other operations", n * n * 4, |i| {
            let (a, b, p) = (&sm[i / 4 / n], &sm[i / 4 % n], i % 4);
            let head = format!("{}\n{}", ORIGINS[2], NAMES[0]);
            let help: String = rid_helpers(&[a, b]).iter().map(|x| format!("|a={x}")).collect();
            match p {
                0 => format!("{head}\nattr {a}\ntime 0 0\nattr {b}\nconn IN IP4 1.2.3.4\nattr {a}"),
                1 => {
                    let ok = |x: &str| !refparse::SESSION_ONLY.contains(&attr_name(x).as_str()) && attr_name(x) != "dtls-message";
                    let v: String = [a, b].iter().filter(|x| ok(x)).map(|x| format!("|a={x}")).collect();
                    format!("{head}\nextend video 9 RTP/AVP 96 97 0|c=IN IP4 9.9.9.9{v}{help}\ntime 0 0\nattr {a}")
                }
                2 => format!("{head}\ntime 1 1\nmedia video sendrecv 9 RTP/AVP 10.0.0.1\ncodec 96 x 1\ncodec 97 y 1 2\nmset {a}\nattr {b}\nconn IN IP6 ::"),
                _ => format!("{head}\ntime 1 1\nconn IN IP6 ::\nvec a={a}|a={b}\nextend audio 0 RTP/AVP 0"),
            }
        });
        let mut l = vec![];
        for o in ORIGINS {
            for n in NAMES {
                l.push(format!("{o}\n{n}"));
                l.push(format!("{o}\n{n}\ntime 0 0\nconn IN IP4 1.1.1.1"));
                for k in ["audio", "video", "application"] {
                    for p in refparse::PROTOS {
                        for ip in ["10.0.0.1", "::1"] {
                            for port in ["0", "9", "65535"] {
                                for dir in ["sendrecv", "inactive", "group:FID 1"] {
                                    let dir = dir.replace(' ', "");
                                    if dir.starts_with("group") {
                                        continue;
                                    }
                                    l.push(format!("{o}\n{n}\ntime 0 0\nmedia {k} {dir} {port} {p} {ip}\ncodec 96 x 1"));
                                    l.push(format!("{o}\n{n}\nmedia {k} {dir} {port} {p} {ip}\ntime 5 6\ndc x 1 2 3"));
                                }
                            }
                        }
                    }
                }
            }
        }
        for n in lens(e).into_iter().filter(|n| *n <= 520) {
            let h = format!("{}\n{}\ntime 0 0", ORIGINS[0], NAMES[0]);
            l.push(format!("{h}{}", (0..n).map(|i| format!("\nmedia audio sendrecv {i} RTP/AVP 10.0.0.1\ncodec {} c{i} {i}", 96 + i % 32)).collect::<String>()));
            l.push(format!("{h}\nconn IN IP4 1.1.1.1{}", (0..n).map(|i| format!("\nattr label:{i}\nbw B{i}:{i}\nattr ice-pwd:p{i}")).collect::<String>()));
            l.push(format!("{h}\nmedia audio sendrecv 9 RTP/AVP 10.0.0.1{}", (0..n).map(|i| format!("\ncodec {} c{i} {i}", i % 128)).collect::<String>()));
            l.push(format!("{h}\nextend {}", (0..n).map(|i| format!("video {i} RTP/AVP 96|c=IN IP4 10.0.0.1|a=mid:{i}")).collect::<Vec<_>>().join("||")));
        }
        for b in ["AS", "CT", "TIAS", "RS", "RR", "X-y", "x", "as1"] {
            for n in nums32() {
                l.push(format!("{}\n-\ntime 0 0\nbw {b}:{n}\nmedia audio sendrecv 9 RTP/AVP h.example@6\ncodec 0 PCMU 8000", ORIGINS[0]));
            }
        }
        for n in nums64() {
            for m in [0, 1, n, u64::MAX] {
                l.push(format!("{}\n-\ntime {n} {m}\nconn IN IP6 ::1", ORIGINS[0]));
                l.push(format!("{}\n-\ntime {m} {n}\nconn IN IP6 ::1", ORIGINS[0]));
                l.push(format!("u {n} {m} IN IP4 h\n-\ntime {m} {n}\nconn IN IP6 ::1"));
            }
        }
        for h in ["h.example@4", "h.example@6", "a-b@4", "0.0.0.0", "127.0.0.1", "255.255.255.255", "::", "::ffff:1.2.3.4", "fe80::1"] {
            for port in (0..=20).chain([1023, 1024, 5000, 32767, 32768, 65534, 65535]) {
                l.push(format!("{}\n-\ntime 0 0\nmedia audio sendrecv {port} RTP/AVP {h}\ncodec 0 PCMU 8000", ORIGINS[0]));
            }
            for n in 0..=255 {
                if !h.contains('@') {
                    l.push(format!("{}\n-\nconn IN {} {h}/{n}\ntime 0 0", ORIGINS[0], if h.contains(':') { "IP6" } else { "IP4" }));
                    l.push(format!("{}\n-\nconn IN {} {h}/{}/{n}\ntime 0 0", ORIGINS[0], if h.contains(':') { "IP6" } else { "IP4" }, 255 - n));
                }
            }
        }
        let all: Vec<String> = HOSTS.iter().map(|x| x.to_string()).chain(special_addresses()).chain(words()).collect();
        for h in &all {
            let hs: Vec<String> = match h.parse::<std::net::IpAddr>() {
                Ok(_) => vec![h.clone()],
                Err(_) if matches!(refparse::line_all(&format!("c=IN IP4 {h}")), Ok(v) if format!("{v:?}").contains(&format!("TFqdn(4, {h:?})"))) && !h.contains(['[', '/', '@']) => vec![format!("{h}@4"), format!("{h}@6")],
                Err(_) => continue,
            };
            for x in hs {
                let c = match x.split_once('@') {
                    Some((h, t)) => format!("IN IP{t} {h}"),
                    None => format!("IN {} {x}", if x.contains(':') { "IP6" } else { "IP4" }),
                };
                for port in ["0", "9", "65535"] {
                    for dir in ["sendrecv", "inactive", "mid:a", "rtcp:5 IN IP4 1.2.3.4"] {
                        let dir = if dir.contains(' ') { "rtcp:5" } else { dir };
                        for f in [
                            format!("conn IN IP4 1.1.1.1\nmedia audio {dir} {port} RTP/AVP {x}"),
                            format!("conn {c}\nmedia audio {dir} {port} RTP/AVP {x}"),
                            format!("conn {c}\nmedia video {dir} {port} UDP/TLS/RTP/SAVPF 10.0.0.1"),
                            format!("media video {dir} {port} TCP/DTLS/SCTP {x}\nconn {c}/3"),
                            format!("media application {dir} {port} DTLS/SCTP {x}\ndc n 1 2 3"),
                        ] {
                            l.push(format!("- 1 2 {c}\n-\ntime 0 0\n{f}\ncodec 0 PCMU 8000"));
                        }
                    }
                }
            }
        }
        for w in words() {
            for t in [
                format!("{}\n{w}\ntime 0 0\nconn IN IP4 1.1.1.1", ORIGINS[0]),
                format!("{w} 1 2 IN IP4 1.2.3.4\n-\ntime 0 0\nconn IN IP4 1.1.1.1"),
                format!("{}\n-\ntime 0 0\nmedia audio sendrecv 9 RTP/AVP 1.1.1.1\ncodec 0 {w} 8000", ORIGINS[0]),
                format!("{}\n-\ntime 0 0\nmedia audio sendrecv 9 UDP/TLS/RTP/SAVPF 1.1.1.1\ncodec 101 {w} 8000 2\ncodec 102 {w} 1", ORIGINS[0]),
                format!("{}\n-\ntime 0 0\nmedia audio sendrecv 9 UDP/DTLS/SCTP 1.1.1.1\ndc {w} 5 6 7", ORIGINS[0]),
                format!("{}\n-\ntime 0 0\nmedia application sendrecv 9 UDP/DTLS/SCTP 1.1.1.1\ndc {w} 5 6 0\nmset mid:{w}\nmset label:{w}", ORIGINS[0]),
            ] {
                // a format or a codec name is one token without '/'
                if t.contains(" é ") || (t.contains("dc ") || t.contains("codec 0 ") || t.contains("codec 101")) && w.contains('/') {
                    continue;
                }
                l.push(t);
            }
        }
        let ml: Vec<String> = super::ctx::mlines(true).iter().map(|l| l[2..].trim().to_string()).collect();
        for m in &ml {
            for o in SOPS {
                l.push(format!("{}\n-\ntime 0 0\nconn IN IP4 1.1.1.1\nextend {m}\n{o}", ORIGINS[0]));
                l.push(format!("{}\n-\ntime 0 0\n{o}\nextend {m}|c=IN IP4 2.2.2.2|a=inactive||{m}|c=IN IP6 ::", ORIGINS[1]));
            }
        }
        e.list("session", "origins, names, kinds, protocols, addresses, words, media lines, boundary values and list lengths", l);
        const CH: [&str; 12] = [" ", "-", ".", "a", "B", "0", ":", "=", "\t", "/", "é", "\u{a0}"];
        let n = seq_count(CH.len(), e.pick(3, 4));
        e.sweep("session", "every short name of sharp characters, in the session and as the user", n * 3, |i| {
            let t: String = seq_at(CH.len(), i / 3).iter().map(|c| CH[*c]).collect();
            match i % 3 {
                0 => format!("{}\n{t}\ntime 0 0\nconn IN IP4 1.1.1.1", ORIGINS[0]),
                1 => format!("{}\n{t}", ORIGINS[0]),
                _ => {
                    let t = if t.is_empty() || t.contains(char::is_whitespace) { "u".into() } else { t };
                    format!("{t} 1 2 IN IP4 h.example\nx\nconn IN IP4 1.1.1.1\ntime 0 0")
                }
            }
        });
    }
    fn decide(&self, _: &str, payload: &str) -> Verdict {
        let mut it = payload.split('\n');
        let SdpType::Origin(o) = typed(&format!("o={}", it.next().unwrap_or("")))? else { return Err("not an origin".into()) };
        let name = it.next().unwrap_or("");
        let mut w = Sess {
            version: U(0),
            origin: proj::origin(&o),
            name: if name.trim().is_empty() { No } else { some(s(name.trim())) },
            connection: No,
            bandwidth: vec![],
            timing: No,
            attrs: vec![],
            media: vec![],
        };
        let mut x = SdpSession::new(0, o, name.into());
        let mut refused = false;
        let check = |x: &SdpSession, w: &Sess, op: &str| {
            let got = proj::sess(x);
            if got != *w {
                return Err(format!("after {op}: {}", diff(w, &got)));
            }
            Ok(())
        };
        check(&x, &w, "construction")?;
        for op in it {
            if !session_op(&mut x, &mut w, op)? {
                refused = true;
            }
            check(&x, &w, op)?;
        }
        // getters and look-ups
        if u(x.get_version()) != w.version
            || proj::origin(x.get_origin()) != w.origin
            || opt(x.get_session().as_ref(), |n| s(n)) != w.name
            || opt(x.get_connection().as_ref(), proj::conn) != w.connection
            || x.get_session_text().trim() != name.trim()
        {
            return Err("a getter differs from the field".into());
        }
        for (n, a) in types() {
            let got = x.get_attribute(SdpAttributeType::from(&a)).map(proj::attr);
            let want = w.attrs.iter().find(|v| name_of(v) == n).cloned();
            if got != want {
                return Err(format!("the attribute of type {n} is {got:?} instead of {want:?}"));
            }
        }
        trans(43);
        for (m, v) in x.media.iter().zip(&w.media).take(3) {
            look(m, v)?;
        }
        state(&w);
        trace();
        let complete = w.timing != No
            && (w.connection != No || (!w.media.is_empty() && w.media.iter().all(|m| m.connection != No)))
            && w.media.iter().all(has_formats)
            && refparse::consistent(&w)
            && !w.attrs.iter().chain(w.media.iter().flat_map(|m| &m.attrs)).any(unreadable)
            && w.media.iter().all(readable_formats);
        if !complete {
            return Ok(if refused { "refused-op" } else { "built" });
        }
        let t = x.to_string();
        trans(2);
        match parse_sdp(&t, true) {
            Err(e) => Err(format!("printed as {t:?}, which is refused: {e}")),
            Ok(r) => {
                let (a, b) = (as_strings(w), proj::sess(&r));
                if a != b {
                    return Err(format!("printed as {t:?}, which reads differently: {}", diff(&a, &b)));
                }
                Ok("survives")
            }
        }
    }
}
/// Values that the syntax cannot express.
fn unreadable(v: &V) -> bool {
    match v {
        T("rtpmap", k) => matches!(&k[0], U(p) if *p > 127),
        _ => prints_nothing(v) && false,
    }
}
/// Are the formats those that a media line can hold?
fn readable_formats(m: &Med) -> bool {
    let T(_, k) = &m.line else { return false };
    if matches!(&k[1], U(p) if *p > 65535) {
        return false;
    }
    if k[0] == s("application") {
        return true;
    }
    let reserved = |p: u128| matches!(p, 1 | 2 | 19 | 64..=95) || p > 127;
    match &k[4] {
        T("ints", f) => matches!(&f[0], L(l) if l.iter().all(|x| matches!(x, U(p) if !reserved(*p)))),
        T(_, f) => matches!(&f[0], L(l) if l.iter().all(|x| matches!(x, S(p) if p.parse::<u128>().is_ok_and(|p| !reserved(p))))),
        _ => false,
    }
}
