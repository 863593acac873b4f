//! C03-C08: documents as sequences of lines, against the reference document semantics.
use super::ctx::*;
use super::*;
use crate::alpha::*;
use crate::refparse::name_of;
use webrtc_sdp::attribute_type::SdpAttribute;
use webrtc_sdp::{parse_sdp, parse_sdp_line};

pub const PRE: &str = "v=0\r\no=- 1 2 IN IP4 127.0.0.1\r\ns=-\r\n";
pub const PRE_T: &str = "v=0\r\no=- 1 2 IN IP4 127.0.0.1\r\ns=-\r\nt=0 0\r\n";
pub const PRE_TC: &str = "v=0\r\no=- 1 2 IN IP4 127.0.0.1\r\ns=-\r\nt=0 0\r\nc=IN IP4 10.9.9.9\r\n";

/// A sequence of lines, `{}` standing for the position.
pub fn lines_at(pre: &str, items: &[&str], i: usize) -> String {
    let mut t = pre.to_string();
    for (n, x) in seq_at(items.len(), i).into_iter().enumerate() {
        t.push_str(&items[x].replace("{}", &(n + 1).to_string()));
        t.push_str("\r\n");
    }
    t
}
pub fn seq_sweep(e: &Engine, kind: &str, what: &str, pre: &str, items: &[&str], d: usize) {
    e.sweep(
        kind,
        &format!("{what}: all sequences of up to {d} lines out of {} after {} fixed lines", items.len(), pre.lines().count()),
        seq_count(items.len(), d),
        |i| lines_at(pre, items, i),
    );
}

macro_rules! check {
    ($n:ident, $s:ident) => {
        pub struct $n;
        pub static $s: $n = $n;
    };
}
check!(Own, C03);
check!(Levels, C04);
check!(Skeleton, C05);
check!(Cross, C06);
check!(Modes, C07);
check!(Locations, C08);

const REF: &str = "the reference document semantics (mc/src/refparse.rs doc) is the specification";

const OWN: &[&str] = &[
    "a=ice-ufrag:u{}",
    "b=AS:{}",
    "c=IN IP4 10.0.0.{}",
    "m=audio {} RTP/AVP 0",
    "m=application {} DTLS/SCTP x",
    "m=text {} RTP/AVP 0",
    "a=dtls-message:client m{}",
    "a=foo:{}",
    "t=0 {}",
    "a=label:l{}",
    "a=group:BUNDLE {}",
];
const OWN_OK: &[&str] = &[
    "a=ice-ufrag:u{}",
    "b=X-b:{}",
    "m=audio {} RTP/AVP 0 8",
    "m=image {} udptl t38",
    "a=dtls-message:server m{}",
    "a=fmtp:9{} x=1",
    "a=inactive",
];

/// Lines that differ only in kind: the order of one kind among the others must be kept.
const OWN_MIX: &[&str] = &[
    "b=AS:{}",
    "b=CT:{}",
    "b=TIAS:{}",
    "b=X-b:{}",
    "b=RS:7",
    "b=AS:7",
    "m=audio {} RTP/AVP 0",
    "m=video {} RTP/SAVPF 96",
];
/// Attributes of one type next to each other.
const OWN_SAME: &[&str] = &[
    "a=sendonly",
    "a=recvonly",
    "a=ssrc:{} cname:c",
    "a=ssrc:7 cname:c",
    "a=ssrc:7 label:{}",
    "a=candidate:{} 1 UDP 5 1.2.3.4 9 typ host",
    "a=end-of-candidates",
    "a=setup:active",
    "m=audio {} RTP/AVP 0",
];

impl Check for Own {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        "all sequences of distinguishable lines up to a depth after a valid head, all ordered pairs of attribute \
         samples at session level and in the first, second and third section, and all list lengths of sections, attributes and bandwidths, every two media lines, every line in every context (see ctx.rs); the \
         parsed session must hold exactly the lines that the model assigns to each section, in order"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![REF]
    }
    fn must_see(&self) -> Vec<&'static str> {
        vec!["accepted", "accepted-with-warnings", "sequence-error"]
    }
    fn explore(&self, e: &Engine) {
        seq_sweep(e, "doc", "all kinds of lines", PRE_TC, OWN, e.pick(5, 6));
        seq_sweep(e, "doc", "lines of accepted documents", PRE_TC, OWN_OK, e.pick(6, 8));
        seq_sweep(e, "doc", "kinds of bandwidth", PRE_TC, OWN_MIX, e.pick(5, 7));
        seq_sweep(e, "doc", "repeated attributes", &format!("{PRE_TC}m=audio 9 RTP/AVP 0\r\n"), OWN_SAME, e.pick(5, 6));
        // the same lines within the second and the third section
        let p2 = format!("{PRE_TC}a=ice-ufrag:s\r\nm=audio 1 RTP/AVP 0\r\na=mid:0\r\nb=CT:77\r\nm=video 2 RTP/AVP 96\r\n");
        seq_sweep(e, "doc", "from the second section on", &p2, OWN, e.pick(4, 5));
        let p3 = format!("{p2}c=IN IP4 4.4.4.4\r\nm=text 5 RTP/AVP 0\r\na=mid:9\r\n");
        seq_sweep(e, "doc", "from an unsupported third section on", &p3, OWN, e.pick(4, 5));
        let sm = samples();
        let n = sm.len();
        e.sweep("doc", "all ordered pairs of attribute samples at each level", n * n * 3, |i| {
            let (a, b, l) = (&sm[i / 3 % n], &sm[i / 3 / n], i % 3);
            let help = rid_helpers(&[a, b]).iter().map(|x| format!("a={x}\r\n")).collect::<String>();
            match l {
                0 => format!("{PRE_TC}a={a}\r\na=ice-pwd:x\r\na={b}\r\n"),
                1 => format!("{PRE_TC}a=inactive\r\n{MLINE}a={a}\r\na={b}\r\na=ice-pwd:x\r\n{help}"),
                _ => format!("{PRE_TC}{MLINE2}a=mid:0\r\n{MLINE}a={a}\r\n{help}{MLINE}a={b}\r\na=mid:2\r\n{help}"),
            }
        });
        // every three attributes of one section, of different types or of one
        let few = per_name(e.pick(2, 4));
        let n = few.len();
        e.sweep("doc", "all ordered triples of attributes in one section", n * n * n, |i| {
            let (a, b, c) = (&few[i % n], &few[i / n % n], &few[i / n / n]);
            let help = rid_helpers(&[a, b, c]).iter().map(|x| format!("a={x}\r\n")).collect::<String>();
            format!("{PRE_TC}{MLINE}a={a}\r\na={b}\r\na={c}\r\n{help}")
        });
        // every two attributes behind and before many others
        let fill = [2, 4, 6, 9, 12, 17, 40, 130];
        let others: Vec<&String> = few.iter().filter(|a| ["label", "mid", "ptime", "msid", "rtcp-rsize", "ice-ufrag", "setup"].contains(&attr_name(a).as_str())).collect();
        e.sweep("doc", "all ordered pairs of attributes behind and before many others", n * n * fill.len() * 4, |i| {
            let (k, f, i) = (i % 4, fill[i / 4 % fill.len()], i / 4 / fill.len());
            let (a, b) = (&few[i % n], &few[i / n]);
            let help = rid_helpers(&[a, b]).iter().map(|x| format!("a={x}\r\n")).collect::<String>();
            let o: String = (0..f).map(|i| if k < 2 { format!("a=ssrc:{i} cname:x{i}\r\n") } else { format!("a={}\r\n", others[i % others.len()]) }).collect();
            match k % 2 {
                0 => format!("{PRE_TC}{MLINE}{o}a={a}\r\na={b}\r\n{help}"),
                _ => format!("{PRE_TC}{MLINE}{help}a={a}\r\n{o}a={b}\r\n"),
            }
        });
        let mut l = vec![];
        for n in lens(e).into_iter().filter(|n| *n <= 2100) {
            let at: String = (0..n).map(|i| format!("a=ice-ufrag:u{i}\r\n")).collect();
            let bw: String = (0..n).map(|i| format!("b=X{i}:{i}\r\n")).collect();
            let me: String = (0..n).map(|i| format!("m=audio {} RTP/AVP 0\r\na=mid:{i}\r\nb=AS:{i}\r\n", i % 65536)).collect();
            let un: String = (0..n).map(|i| format!("m={} {} RTP/AVP 0\r\na=mid:{i}\r\n", if i % 2 == 0 { "text" } else { "video" }, i)).collect();
            let ur: String = (0..n).map(|i| format!("m={} 9 RTP/AVP 0\r\na=mid:{i}\r\n", if i + 1 < n { "text" } else { "video" })).collect();
            l.push(format!("{PRE_TC}{at}{bw}"));
            l.push(format!("{PRE_TC}{bw}m=audio 9 RTP/AVP 0\r\n{at}{bw}"));
            l.push(format!("{PRE_TC}{me}"));
            l.push(format!("{PRE_TC}{un}"));
            l.push(format!("{PRE_TC}{ur}"));
            l.push(format!("{PRE_TC}m=audio 9 RTP/AVP 0\r\n{at}m=video 9 RTP/AVP 96\r\n{bw}{at}"));
        }
        e.list("doc", "list lengths of sections, attributes and bandwidths", l);
        // every two media lines next to each other, with lines of their own
        let ml = mlines(e.thorough());
        let n = ml.len();
        e.sweep("doc", "every two media lines, each with its own lines", n * n * 2, |i| {
            let (a, b) = (&ml[i / 2 % n], &ml[i / 2 / n]);
            if i % 2 == 0 {
                format!("{PRE_TC}a=inactive\r\n{a}a=mid:0\r\nb=AS:1\r\n{b}a=mid:1\r\nb=AS:2\r\na=sendonly\r\n")
            } else {
                format!("{PRE_T}{a}c=IN IP4 10.0.0.1\r\na=mid:0\r\nm=text 5 RTP/AVP 0\r\na=mid:x\r\n{b}b=CT:2\r\nc=IN IP4 10.0.0.2\r\n")
            }
        });
        let cx = contexts(e.thorough());
        let ow: Vec<String> = OWN.iter().chain(OWN_OK).chain(OWN_SAME).map(|x| x.replace("{}", "5") + "\r\n").chain([String::new()]).collect();
        let n = ow.len();
        e.sweep("doc", "every line in every context", cx.len() * n * 6 * ARRS, |i| {
            let (a, f, x, c) = (i % ARRS, i / ARRS % 6, i / ARRS / 6 % n, &cx[i / ARRS / 6 / n]);
            let (s, m) = [("", ow[x].as_str()), (ow[x].as_str(), ""), (ow[x].as_str(), ow[x].as_str())][f / 2];
            c.doc(USUAL, a, s, m, f % 2 == 1)
        });
    }
    fn decide(&self, _: &str, payload: &str) -> Verdict {
        doc_verdict(payload)
    }
}

// ------------------------------------------------------------------------------------------- C04

impl Check for Levels {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> &'static str {
        "every attribute sample at session level, in the first and in a later media section, before, between and \
         after other attributes; every sequence of up to 3 (thorough 4) additions of an attribute of each name to \
         a session and to a media section through the API; every attribute at both levels in every context"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the table of levels in mc/src/refparse.rs (MEDIA_ONLY, SESSION_ONLY) is the specification"]
    }
    fn must_see(&self) -> Vec<&'static str> {
        vec!["accepted", "sequence-error", "added", "add-refused"]
    }
    fn explore(&self, e: &Engine) {
        let sm = samples();
        let mut l = vec![];
        for a in &sm {
            let help: String = rid_helpers(&[a]).iter().map(|x| format!("a={x}\r\n")).collect();
            for (pre, post) in [("", ""), ("a=ice-ufrag:x\r\n", ""), ("", "a=ice-pwd:y\r\n"), ("a=sendrecv\r\n", "b=AS:1\r\na=setup:active\r\n")] {
                l.push(format!("{PRE_TC}{pre}a={a}\r\n{post}"));
                l.push(format!("{PRE_TC}{pre}a={a}\r\n{post}{MLINE}a=mid:0\r\n"));
                for m in [MLINE, MLINE2] {
                    l.push(format!("{PRE_TC}{m}{pre}a={a}\r\n{post}{help}"));
                    l.push(format!("{PRE_TC}a=ice-lite\r\n{m}a=mid:0\r\n{m}{pre}a={a}\r\n{post}{help}"));
                    l.push(format!("{PRE_TC}{m}{pre}a={a}\r\n{post}{help}{m}a=mid:1\r\n"));
                    l.push(format!("{PRE_T}{m}c=IN IP4 1.1.1.1\r\n{pre}a={a}\r\n{post}{help}"));
                }
            }
        }
        e.list("doc", "samples at every level", l);
        let cx = contexts(e.thorough());
        let at = if e.thorough() { sm.clone() } else { one_per_name() };
        let n = at.len();
        e.sweep("doc", "every attribute at both levels in every context", cx.len() * n * 4 * ARRS, |i| {
            let (a, f, x, c) = (i % ARRS, i / ARRS % 4, i / ARRS / 4 % n, &cx[i / ARRS / 4 / n]);
            let l = format!("a={}\r\n", at[x]);
            if f / 2 == 0 {
                c.doc(USUAL, a, &l, "", f % 2 == 1)
            } else {
                let help: String = rid_helpers(&[&at[x]]).iter().map(|x| format!("a={x}\r\n")).collect();
                c.doc(USUAL, a, "", &(l + &help), f % 2 == 1)
            }
        });
        let one = one_per_name();
        let k = one.len();
        e.sweep("add", "additions through the API", seq_count(k, e.pick3(2, 3, 4)) * 2, |i| {
            let mut t = String::from(if i % 2 == 0 { "session" } else { "media" });
            for x in seq_at(k, i / 2) {
                t.push('\n');
                t.push_str(&one[x]);
            }
            t
        });
        e.sweep("add", "addition of every sample through the API", sm.len() * 2, |i| {
            format!("{}\n{}", if i % 2 == 0 { "session" } else { "media" }, sm[i / 2])
        });
    }
    fn decide(&self, kind: &str, payload: &str) -> Verdict {
        if kind == "doc" {
            return doc_verdict(payload);
        }
        let mut it = payload.split('\n');
        let media = it.next() == Some("media");
        let mut s = base_session();
        let mut m = webrtc_sdp::media_type::SdpMedia::new(base_mline());
        let mut want: Vec<V> = vec![];
        let mut refused = false;
        let s0 = proj::sess(&s);
        let m0 = proj::media(&m);
        for t in it {
            let a: SdpAttribute = t.parse().map_err(|e| format!("{t}: {e}"))?;
            let v = proj::attr(&a);
            let name = name_of(&v);
            let allowed = if media {
                !refparse::SESSION_ONLY.contains(&name) && name != "dtls-message"
            } else {
                !refparse::MEDIA_ONLY.contains(&name)
            };
            if media && a.allowed_at_media_level() != allowed || !media && a.allowed_at_session_level() != allowed {
                return Err(format!("{t}: the level predicate is not {allowed}"));
            }
            let r = if media { m.add_attribute(a.clone()) } else { s.add_attribute(a.clone()) };
            trans(1);
            if r.is_ok() != allowed {
                return Err(format!("{t}: allowed {allowed}, but adding gave {r:?}"));
            }
            if allowed {
                want.push(v);
            } else {
                refused = true;
            }
            if media {
                let mut x = m0.clone();
                x.attrs = want.clone();
                if proj::media(&m) != x {
                    return Err(format!("after adding {t}: {:?}, expected {x:?}", proj::media(&m)));
                }
            } else {
                let mut x = s0.clone();
                x.attrs = want.clone();
                if proj::sess(&s) != x {
                    return Err(format!("after adding {t}: {}", diff(&x, &proj::sess(&s))));
                }
            }
            state(&(media, &want));
            trace();
        }
        Ok(if refused { "add-refused" } else { "added" })
    }
}
/// The first sample of each attribute name.
/// The first `k` samples of every attribute name, and attributes of two formats and two sources.
fn per_name(k: usize) -> Vec<String> {
    let mut n = std::collections::HashMap::new();
    let mut v: Vec<String> = vec![];
    for a in samples() {
        let c = n.entry(attr_name(&a)).or_insert(0);
        *c += 1;
        if *c <= k {
            v.push(a);
        }
    }
    for a in [
        "rtpmap:96 x/90000", "rtpmap:97 y/90000", "fmtp:96 x=1", "fmtp:97 x=1", "rtcp-fb:96 nack", "rtcp-fb:97 nack", "rtcp-fb:* nack", "imageattr:96 send *", "imageattr:97 send *",
        "rid:a send pt=96", "rid:b send pt=97", "ssrc:1 cname:a", "ssrc:2 cname:a", "ssrc-group:FID 1 2", "ssrc-group:FID 2 1", "extmap:1 u", "extmap:2 u",
    ] {
        if !v.iter().any(|x| x == a) {
            v.push(a.into());
        }
    }
    v
}
pub fn one_per_name() -> Vec<String> {
    let mut seen = vec![];
    let mut out = vec![];
    for a in samples() {
        let n = attr_name(&a);
        if !seen.contains(&n) {
            seen.push(n);
            out.push(a);
        }
    }
    out
}
pub fn base_session() -> webrtc_sdp::SdpSession {
    webrtc_sdp::SdpSession::new(
        0,
        webrtc_sdp::SdpOrigin {
            username: "user".into(),
            session_id: 5,
            session_version: 6,
            unicast_addr: std::net::IpAddr::from([10, 1, 2, 3]).into(),
        },
        "name".into(),
    )
}
pub fn base_mline() -> webrtc_sdp::media_type::SdpMediaLine {
    use webrtc_sdp::media_type::*;
    SdpMediaLine {
        media: SdpMediaValue::Video,
        port: 7,
        port_count: 0,
        proto: SdpProtocolValue::RtpAvp,
        formats: SdpFormatList::Integers(vec![96, 97]),
    }
}

// ------------------------------------------------------------------------------------------- C05

const SKEL: &[&str] = &[
    "v=0",
    "o=- 1 2 IN IP4 127.0.0.1",
    "s=-",
    "t=0 0",
    "c=IN IP4 10.0.0.{}",
    "m=audio {} RTP/AVP 0",
    "b=AS:{}",
    "a=ice-ufrag:u{}",
    "m=text {} RTP/AVP 0",
    "i=x",
    "",
];

/// Other values of the lines of the session part.
const SKEL_ALT: &[&str] = &[
    "v=0",
    "o=- 1 2 IN IP4 127.0.0.1",
    "o=u 3 4 IN IP6 ::1",
    "s=-",
    "s= ",
    "s=",
    "s=name {}",
    "t=0 0",
    "t=1 {}",
    "c=IN IP6 ::{}",
    "m=audio {} RTP/AVP 0",
];

impl Check for Skeleton {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn rule(&self) -> &'static str {
        "all sequences of up to 6 (thorough 7) lines of all kinds, all sequences after a valid start of 3, 4 and 5 lines and within \
         later media sections, and every one-letter line type with and without value at every place; timing and connections 0 to 2 times each, and misplaced lines, in every context (attribute samples, media lines, bandwidths, \
         addresses, timings, names); accepted exactly when the model accepts"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![REF]
    }
    fn must_see(&self) -> Vec<&'static str> {
        vec!["accepted", "accepted-with-warnings", "sequence-error", "line-error"]
    }
    fn explore(&self, e: &Engine) {
        seq_sweep(e, "doc", "whole documents", "", &SKEL[..e.pick(9, 11)], e.pick(6, 7));
        seq_sweep(e, "doc", "after v o s", PRE, SKEL, e.pick(5, 6));
        seq_sweep(e, "doc", "whole documents, other values", "", SKEL_ALT, e.pick(5, 6));
        seq_sweep(e, "doc", "after v o s t c, other values", PRE_TC, SKEL_ALT, e.pick(5, 6));
        seq_sweep(e, "doc", "after v o, other values", &PRE[..PRE.find("s=").unwrap()], SKEL_ALT, e.pick(5, 6));
        let rest: Vec<&str> = SKEL[3..9].to_vec();
        seq_sweep(e, "doc", "after v o s, valid lines only", PRE, &rest, e.pick(6, 8));
        let m = format!("{PRE_T}m=audio 9 RTP/AVP 0\r\n");
        seq_sweep(e, "doc", "after a media line without connection", &m, SKEL, e.pick(4, 6));
        let m = format!("{PRE_T}m=audio 9 RTP/AVP 0\r\nc=IN IP4 9.9.9.9\r\nm=video 9 RTP/AVP 96\r\nc=IN IP4 8.8.8.8\r\n");
        seq_sweep(e, "doc", "after two media sections with connections", &m, SKEL, e.pick(4, 6));
        let m = format!("{PRE_TC}m=audio 9 RTP/AVP 0\r\nc=IN IP4 9.9.9.9\r\nm=video 9 RTP/AVP 96\r\n");
        seq_sweep(e, "doc", "after two media sections and a session connection", &m, SKEL, e.pick(4, 6));
        let base = format!("{PRE_TC}b=AS:1\r\na=inactive\r\nm=audio 9 RTP/AVP 0\r\na=mid:0\r\nm=video 9 RTP/AVP 96\r\n");
        let mut l = vec![String::new(), "\r\n".into(), "\n".into(), " ".into(), "\r".into(), "v=0".into()];
        let bl: Vec<&str> = base.lines().collect();
        // every one-letter type at every place, every deletion, duplication and swap of lines
        for at in 0..=bl.len() {
            for c in ' '..='~' {
                for val in ["", "x", "0", "0 0", "IN IP4 1.2.3.4", " "] {
                    let mut v: Vec<String> = bl.iter().map(|x| x.to_string()).collect();
                    v.insert(at, format!("{c}={val}"));
                    l.push(v.join("\r\n"));
                }
            }
        }
        for a in 0..bl.len() {
            for b in 0..bl.len() {
                let mut v = bl.clone();
                v.swap(a, b);
                l.push(v.join("\r\n"));
                let mut v = bl.clone();
                let x = v.remove(a);
                v.insert(b.min(v.len()), x);
                l.push(v.join("\r\n"));
                let mut v = bl.clone();
                v.insert(a, bl[b]);
                l.push(v.join("\r\n"));
                let mut v = bl.clone();
                v.remove(a);
                if b < v.len() {
                    v.remove(b);
                }
                l.push(v.join("\r\n"));
            }
        }
        for n in 0..=bl.len() {
            l.push(bl[..n].join("\r\n"));
            l.push(bl[..n].join("\n") + "\n");
        }
        for t in [base.clone(), PRE_TC.to_string()] {
            for i in 0..=t.len() {
                l.push(t[..i].to_string());
            }
        }
        e.list("doc", "single line faults of a valid document, and all its prefixes", l);
        // which of up to 5 sections have a connection
        let mut l = vec![];
        for n in 0..=e.pick(6usize, 10) {
            for mask in 0..(1u32 << n) {
                for c in ["", "c=IN IP4 10.9.9.9\r\n"] {
                    let mut t = format!("{PRE_T}{c}");
                    for i in 0..n {
                        t.push_str(&format!("m=audio {i} RTP/AVP 0\r\na=mid:{i}\r\n"));
                        if mask >> i & 1 == 1 {
                            t.push_str(&format!("c=IN IP4 10.0.0.{i}\r\n"));
                        }
                    }
                    l.push(t);
                }
            }
        }
        for n in 1..=e.pick(5usize, 8) {
            for code in 0..3usize.pow(n as u32) {
                let mut t = PRE_T.to_string();
                let mut c = code;
                for i in 0..n {
                    t.push_str(match c % 3 {
                        0 => "m=audio 9 RTP/AVP 0\r\n",
                        1 => "m=audio 9 RTP/AVP 0\r\nc=IN IP4 10.0.0.1\r\n",
                        _ => "m=text 9 RTP/AVP 0\r\n",
                    });
                    t.push_str(&format!("a=mid:{i}\r\n"));
                    c /= 3;
                }
                l.push(t);
            }
        }
        e.list("doc", "every choice of sections with a connection", l);
        let cx = contexts(true);
        e.sweep("doc", "timing and connections 0 to 2 times each, in every context", cx.len() * SHAPES * ARRS, |i| {
            cx[i / ARRS / SHAPES].doc(i / ARRS % SHAPES, i % ARRS, "", "", false)
        });
        let odd = ["v=0", "o=- 1 2 IN IP4 127.0.0.1", "s=-", "t=0 0", "i=x", "c=IN IP4 10.0.0.1", "k=", "", " = "];
        let n = odd.len();
        e.sweep("doc", "a line that does not belong, in every context", cx.len() * n * 16 * ARRS, |i| {
            let (a, f, x, c) = (i % ARRS, i / ARRS % 16, i / ARRS / 16 % n, &cx[i / ARRS / 16 / n]);
            let l = format!("{}\r\n", odd[x]);
            let (s, m) = [("", ""), (l.as_str(), ""), ("", l.as_str()), (l.as_str(), l.as_str())][f / 4];
            c.doc([USUAL, OWN_CONN][f / 2 % 2], a, s, m, f % 2 == 1)
        });
    }
    fn decide(&self, _: &str, payload: &str) -> Verdict {
        doc_verdict(payload)
    }
}

// ------------------------------------------------------------------------------------------- C06

const CROSS: &[&str] = &[
    "extmap:1 urn:x",
    "rtcp-mux",
    "rtcp-mux-only",
    "rid:a send",
    "rid:a recv",
    "rid:b send pt=96",
    "rid:b recv pt=97",
    "rid:c send pt=96,0",
    "simulcast:send a",
    "simulcast:recv a",
    "simulcast:send a;~b",
    "simulcast:recv b send a,c",
];

/// The rules, kept and broken, as lines to add to a section.
const FAULTS: &[&[&str]] = &[
    &[],
    &["extmap:1 urn:x"],
    &["rtcp-mux-only"],
    &["rtcp-mux"],
    &["rtcp-mux-only", "rtcp-mux"],
    &["rid:zz send pt=98"],
    &["rid:zz recv pt=0"],
    &["rid:zz send pt=97,98"],
    &["rid:zz recv"],
    &["simulcast:send zy"],
    &["simulcast:recv zy"],
    &["simulcast:send zz", "rid:zz send"],
    &["simulcast:send zz", "rid:zz recv"],
    &["rid:zz recv", "rid:zx recv", "simulcast:recv zz;~zx"],
    &["rid:zz recv", "rid:zx send", "simulcast:recv zz;~zx"],
];

impl Check for Cross {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> &'static str {
        "all sequences (so all orders) of up to 4 (thorough 5) of 12 attributes that the rules speak about in one section, all \
         combinations of two and three sections, each with and without session extmap and for several format lists; list lengths \
         with the one faulty element at each end; every grouping of up to 7 simulcast ids with each one missing; every payload type in a rid; every rule kept and broken \
         in every context and beside every two and three attributes; accepted exactly when the model's rules hold"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![REF]
    }
    fn must_see(&self) -> Vec<&'static str> {
        vec!["accepted", "sequence-error"]
    }
    fn explore(&self, e: &Engine) {
        let heads = [PRE_TC.to_string(), format!("{PRE_TC}a=extmap:3 urn:y\r\n"), format!("{PRE_TC}a=inactive\r\na=extmap:3 urn:y\r\na=extmap-allow-mixed\r\n")];
        let mls = [
            "m=video 9 RTP/AVP 96\r\n",
            "m=audio 9 RTP/AVP 0 96 97\r\n",
            "m=application 9 DTLS/SCTP 97 096 96\r\n",
        ];
        let sec = |m: &str, p: &[usize]| {
            let mut t = m.to_string();
            for x in p {
                t.push_str(&format!("a={}\r\n", CROSS[*x]));
            }
            t
        };
        let k = CROSS.len();
        let n = seq_count(k, e.pick(4, 5));
        e.sweep("doc", "one section", n * 6, |i| {
            format!("{}{}", heads[i % 2], sec(mls[i / 2 % 3], &seq_at(k, i / 6)))
        });
        let n = seq_count(k, 2);
        e.sweep("doc", "two sections", n * n * e.pick(2, 6), |i| {
            let (a, b, c) = (i % n, i / n % n, i / n / n);
            format!("{}{}{}", heads[c % 2], sec(mls[c / 2 % 3], &seq_at(k, a)), sec(mls[(c / 2 + 1) % 3], &seq_at(k, b)))
        });
        let n = seq_count(k, e.pick(1, 2));
        let h = e.pick(3, 1);
        e.sweep("doc", "three sections", n * n * n * h, |i| {
            let (a, b, c) = (i % n, i / n % n, i / n / n % n);
            format!(
                "{}{}{}{}",
                heads[i / (n * n * n)],
                sec(mls[1], &seq_at(k, a)),
                sec(mls[0], &seq_at(k, b)),
                sec(mls[1], &seq_at(k, c))
            )
        });
        // an unsupported section in between does not count
        let n = seq_count(k, 2);
        e.sweep("doc", "sections around an unsupported one", n * k * 2, |i| {
            format!(
                "{}{}{}{}",
                heads[i % 2],
                sec("m=text 9 RTP/AVP 0\r\n", &seq_at(k, i / 2 % n)),
                sec(mls[1], &[i / 2 / n]),
                sec("m=text 9 RTP/AVP 0\r\n", &[i / 2 / n])
            )
        });
        let mut l = vec![];
        for n in lens(e).into_iter().filter(|n| *n > 0 && *n <= 1030) {
            let rids = |d: &str, skip: Option<usize>| -> String {
                (0..n).filter(|i| Some(*i) != skip).map(|i| format!("a=rid:r{i} {d}\r\n")).collect()
            };
            let ids: String = (0..n).map(|i| format!("{}r{i}", if i == 0 { "" } else if i % 2 == 0 { ";" } else { "," })).collect();
            for d in ["send", "recv"] {
                let o = if d == "send" { "recv" } else { "send" };
                for skip in [None, Some(0), Some(n - 1), Some(n / 2)] {
                    l.push(format!("{PRE_TC}{}{}a=simulcast:{d} {ids}\r\n", mls[0], rids(d, skip)));
                    l.push(format!("{PRE_TC}{}a=simulcast:{d} {ids}\r\n{}", mls[0], rids(d, skip)));
                    l.push(format!("{PRE_TC}{}a=simulcast:{d} {ids}\r\n{}", mls[0], rids(o, skip)));
                }
            }
            // n formats, a rid with all of them, one replaced
            let f: Vec<String> = (0..n.min(100)).map(|i| if i < 32 { 96 + i } else { i - 32 + 20 }.to_string()).filter(|x| x.parse::<u32>().map_or(false, |x| x < 64 || x > 95)).collect();
            for bad in [None, Some(0), Some(f.len() - 1), Some(f.len() / 2)] {
                let mut g = f.clone();
                if let Some(b) = bad {
                    g[b] = "18".into();
                }
                l.push(format!("{PRE_TC}m=video 9 RTP/AVP {}\r\na=rid:x send pt={}\r\n", f.join(" "), g.join(",")));
                l.push(format!("{PRE_TC}m=video 9 RTP/AVP {}\r\na=rid:x send\r\na=rid:y recv pt={};max-fs=1\r\n", f.join(" "), g.join(",")));
            }
            // the n-th of several sections breaks a rule
            if n <= 70 {
                for bad in ["a=rtcp-mux-only\r\n", "a=rid:x send pt=99\r\n", "a=simulcast:send q\r\n", "a=extmap:1 urn:x\r\n"] {
                    for at in [0, n - 1, n / 2] {
                        for h in &heads {
                            let secs: String =
                                (0..n).map(|i| format!("{}a=mid:{i}\r\n{}", mls[1], if i == at { bad } else { "" })).collect();
                            l.push(format!("{h}{secs}"));
                        }
                    }
                }
            }
        }
        // every rid id against every simulcast id
        let ids = ["a", "A", "aa", "~a", "", "a ", "1", "01", "é", "*", "-"];
        for x in ids {
            for y in ids {
                for d in ["send", "recv"] {
                    l.push(format!("{PRE_TC}{}a=rid:{x} {d}\r\na=simulcast:{d} {y}\r\n", mls[0]));
                    l.push(format!("{PRE_TC}{}a=simulcast:{d} b;{y}\r\na=rid:b {d}\r\na=rid:{x} {d}\r\n", mls[0]));
                }
            }
        }
        for a in 0..=300u32 {
            for f in ["0", "9", "96", "127"] {
                l.push(format!("{PRE_TC}m=video 9 RTP/AVP {f} 8\r\na=rid:x send pt={a}\r\n"));
                l.push(format!("{PRE_TC}m=video 9 RTP/AVP 8 {f}\r\na=rid:x send pt=8,{a}\r\n"));
                l.push(format!("{PRE_TC}m=application 9 DTLS/SCTP {f} x\r\na=rid:x send pt={a}\r\n"));
            }
        }
        e.list("doc", "list lengths and id tables", l);
        let s = e.pick(7, 1);
        e.sweep("doc", "every payload type in a rid, listed or not, as an integer and as a string", (65_540 / s) * 12, |i| {
            let (a, k) = (i / 12 * s, i % 12);
            let near = [a + 1, a.saturating_sub(1), a % 256, a % 128, a / 2, a][k % 6];
            let (m, n) = if k < 6 { ("application 9 DTLS/SCTP", near) } else { ("video 9 RTP/AVP", near % 128) };
            let n = if k >= 6 && (matches!(n, 1 | 2 | 19) || (64..96).contains(&n)) { 97 } else { n };
            match a % 3 {
                0 => format!("{PRE_TC}m={m} {n}\r\na=rid:x send pt={a}\r\n"),
                1 => format!("{PRE_TC}m={m} 96 {n} 0\r\na=rid:x recv pt=96,{a}\r\n"),
                _ => format!("{PRE_TC}m={m} {n} 8\r\na=rid:y send pt=8\r\na=rid:x recv pt={a},8;max-fs=3\r\n"),
            }
        });
        let cx = contexts(true);
        let n = FAULTS.len();
        e.sweep("doc", "every rule in every context", cx.len() * n * n.min(e.pick(1, n)) * ARRS * 4, |i| {
            let (a, f, i) = (i % ARRS, i / ARRS % 4, i / ARRS / 4);
            let (x, y, c) = (i % n, if e.thorough() { i / n % n } else { 0 }, &cx[i / n / n.min(e.pick(1, n))]);
            let l = |x: &[&str]| x.iter().map(|y| format!("a={y}\r\n")).collect::<String>();
            let m = if x == y { l(FAULTS[x]) } else { l(FAULTS[x]) + &l(FAULTS[y]) };
            c.doc([USUAL, OWN_CONN][f / 2], a, if f % 2 == 1 { "a=extmap:9 urn:s\r\n" } else { "" }, &m, i % 2 == 1)
        });
        // two other attributes beside, and a third
        let pn: Vec<String> = per_name(e.pick(1, 3)).into_iter().filter(|a| !refparse::SESSION_ONLY.contains(&attr_name(a).as_str())).collect();
        let help: Vec<String> = pn.iter().map(|a| rid_helpers(&[a]).iter().map(|x| format!("a={x}\r\n")).collect()).collect();
        let k = pn.len();
        e.sweep("doc", "every rule beside every two attributes", k * k * n * 2, |i| {
            let (h, i) = (i % 2, i / 2);
            let (f, x, y) = (FAULTS[i % n], i / n % k, i / n / k);
            let l: String = f.iter().map(|y| format!("a={y}\r\n")).collect();
            let (p, q) = (format!("a={}\r\n{}", pn[x], help[x]), format!("a={}\r\n{}", pn[y], help[y]));
            if h == 0 {
                format!("{}{MLINE}{l}{p}{q}", heads[0])
            } else {
                format!("{}{MLINE2}{p}{MLINE}{p}{l}{q}{MLINE2}{q}", heads[0])
            }
        });
        let one: Vec<usize> = (0..k).filter(|x| pn.iter().position(|y| attr_name(y) == attr_name(&pn[*x])) == Some(*x)).collect();
        let o = one.len();
        let fs = [1, 2, 5, 8, 9];
        e.sweep("doc", "the broken rules beside every three attributes", o * o * o * fs.len(), |i| {
            let (f, i) = (FAULTS[fs[i % fs.len()]], i / fs.len());
            let l: String = f.iter().map(|y| format!("a={y}\r\n")).collect();
            let m: String = [one[i % o], one[i / o % o], one[i / o / o]].iter().map(|x| format!("a={}\r\n{}", pn[*x], help[*x])).collect();
            format!("{}{MLINE}{m}{l}", heads[0])
        });
        // lists of ids: which one is missing, how they are grouped
        let mut l = vec![];
        for n in 1..=7usize {
            for g in 0..1usize << (n - 1) {
                for bad in (0..n).map(Some).chain([None]) {
                    for pause in [false, true] {
                        let ids: String = (0..n)
                            .map(|i| {
                                let s = if i == 0 { "" } else if g >> (i - 1) & 1 == 1 { ";" } else { "," };
                                format!("{s}{}{}", if pause { "~" } else { "" }, if Some(i) == bad { "q".into() } else { format!("r{}", i / 2) })
                            })
                            .collect();
                        let rids: String = (0..n).map(|i| format!("a=rid:r{i} send\r\na=rid:r{i} recv\r\n")).collect();
                        for d in ["send", "recv"] {
                            l.push(format!("{PRE_TC}{}{rids}a=simulcast:{d} {ids}\r\n", mls[0]));
                        }
                        l.push(format!("{PRE_TC}{}{rids}a=simulcast:send r0 recv {ids}\r\n", mls[0]));
                        l.push(format!("{PRE_TC}{}a=simulcast:recv {ids} send r0\r\n{rids}", mls[0]));
                    }
                }
            }
        }
        e.list("doc", "every grouping of up to seven simulcast ids, each one missing", l);
        let mut l = vec![];
        for n in 1..=6usize {
            for bad in 0..n {
                let pts: String = (0..n).map(|i| format!("{}{}", if i == 0 { "" } else { "," }, if i == bad { 99 } else { 96 + i % 2 })).collect();
                for r in 0..4usize {
                    for at in 0..=r {
                        let rids: String = (0..=r).map(|i| if i == at { format!("a=rid:x{i} send pt={pts}\r\n") } else { format!("a=rid:x{i} recv pt=97,96,97\r\n") }).collect();
                        l.push(format!("{PRE_TC}m=video 9 RTP/AVP 96 97\r\n{rids}"));
                        l.push(format!("{PRE_TC}m=application 9 DTLS/SCTP 96 97\r\n{rids}"));
                    }
                }
            }
        }
        e.list("doc", "every payload type of every rid missing", l);
        // every short id, in the list and not
        let ch = ["a", "b", "A", "0", "1", "~", "-", "_", "=", "é", "*", ":"];
        let k = seq_count(ch.len(), 2);
        e.sweep("doc", "every short rid id against every short simulcast id", k * k * 2, |i| {
            let id = |j: usize| seq_at(ch.len(), j).into_iter().map(|x| ch[x]).collect::<String>();
            let (x, y, d) = (id(i / 2 % k), id(i / 2 / k), if i % 2 == 0 { "send" } else { "recv" });
            if y.is_empty() || y.trim_start_matches('~').is_empty() {
                return format!("{PRE_TC}{}a=rid:{x} {d}\r\n", mls[0]);
            }
            format!("{PRE_TC}{}a=rid:{x} {d}\r\na=simulcast:{d} {y}\r\n", mls[0])
        });
    }
    fn decide(&self, _: &str, payload: &str) -> Verdict {
        doc_verdict(payload)
    }
}

// ------------------------------------------------------------------------------------------- C07

const MODES: &[&str] = &[
    "a=ice-ufrag:u{}",
    "m=audio {} RTP/AVP 0",
    "a=foo:{}",
    "m=text {} RTP/AVP 0",
    "a=candidate:1 1 UDP {} 1.2.3.4 9 typ host ext",
    "a=group:FOO {}",
    "a=setup:bad{}",
    "b=AS:{}",
    "",
    "a=rtcp-fb:9 nack foo{}",
];
const UNSUPPORTED: &[&str] = &[
    "a=foo",
    "a=foo:bar",
    "a=",
    "a=:",
    "a= x",
    "a=x-y z",
    "a=candidate:1 1 UDP 5 1.2.3.4 9 typ host generation 1 ext",
    "a=group:FOO 1",
    "a=group:",
    "a=ssrc-group:FOO 1",
    "a=rtcp-fb:9 foo",
    "a=rtcp-fb:9 nack foo",
    "a=rtcp-fb:9 ack",
    "a=fingerprint:md5 00:11",
    "a=fmtp:96",
    "m=text 9 RTP/AVP 0",
    "m=audio 9 RTP/FOO 0",
    "m=image 9 udptl t38",
    "m=message 2855 TCP/MSRP *",
    "a=crypto:1 AES_CM_128_HMAC_SHA1_80 inline:x",
];
const ERRONEOUS: &[&str] = &[
    "a=setup:bad",
    "a=mid:",
    "a=ptime:x",
    "a=sendrecv:1",
    "a=rtpmap:300 x/1",
    "a=fingerprint:sha-1 00",
    "b=AS",
    "b=AS:x",
    "c=IN IP4",
    "c=IN IP6 1.2.3.4",
    "t=0",
    "v=1",
    "o=- 1",
    "m=audio 99999 RTP/AVP 0",
    "m=audio 9 RTP/AVP 64",
    "m=audio",
    "i=x",
    "z=",
    "x",
    "=",
    "ab=c",
    "e=a@b",
];

impl Check for Modes {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> &'static str {
        "all sequences of good, unsupported and erroneous lines up to a depth, at session level and in media sections, and every pair of \
         20 unsupported and 22 erroneous lines at every two places of a document, and each of them in every context; both modes are compared with the model, and the \
         lenient session must be the one of the document with the unsupported lines removed"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![REF]
    }
    fn must_see(&self) -> Vec<&'static str> {
        vec!["accepted", "accepted-with-warnings", "line-error", "sequence-error"]
    }
    fn explore(&self, e: &Engine) {
        seq_sweep(e, "doc", "from the session level", PRE_TC, MODES, e.pick3(5, 6, 7));
        let m = format!("{PRE_TC}m=video 9 RTP/AVP 96\r\n");
        seq_sweep(e, "doc", "from a media section", &m, MODES, e.pick(4, 6));
        let few: Vec<&str> = MODES[..4].to_vec();
        seq_sweep(e, "doc", "few kinds", PRE_TC, &few, e.pick3(7, 9, 11));
        let base: Vec<&str> = vec![
            "v=0",
            "o=- 1 2 IN IP4 127.0.0.1",
            "s=-",
            "t=0 0",
            "c=IN IP4 10.9.9.9",
            "a=inactive",
            "m=audio 9 RTP/AVP 0",
            "a=mid:0",
            "m=video 9 RTP/AVP 96",
            "a=mid:1",
        ];
        let padded = ["m=text 9 RTP/AVP 0", "a=foo:bar", "m=audio 9 RTP/FOO 0", "a=setup:bad", "a=group:FOO 1"]
            .into_iter()
            .flat_map(|x| {
                let (k, v) = x.split_once('=').unwrap();
                vec![format!(" {x}"), format!("\t{x} "), format!("{k} ={v}"), format!("{k}= {v}"), format!("{}={v}", k.to_uppercase()), format!("{x}\u{b}")]
            })
            .collect::<Vec<_>>();
        let ul: Vec<&str> = UNSUPPORTED.iter().chain(ERRONEOUS).copied().chain(padded.iter().map(|x| x.as_str())).collect();
        let (k, b) = (ul.len() + 1, base.len() + 1);
        e.sweep("doc", "every two odd lines at every two places", k * k * b * b, |i| {
            let (x, y, p, q) = (i % k, i / k % k, i / k / k % b, i / k / k / b);
            let mut v: Vec<&str> = base.clone();
            if x < ul.len() {
                v.insert(p, ul[x]);
            }
            if y < ul.len() {
                v.insert(q.min(v.len()), ul[y]);
            }
            v.join("\r\n") + "\r\n"
        });
        let mut l = vec![];
        for n in lens(e).into_iter().filter(|n| *n <= 2100) {
            let u: String = (0..n).map(|i| format!("a=foo:{i}\r\n")).collect();
            let m: String = (0..n).map(|i| format!("m=text {i} RTP/AVP 0\r\na=mid:{i}\r\n")).collect();
            let mix: String = (0..n)
                .map(|i| if i % 3 == 0 { format!("m=text {i} RTP/AVP 0\r\na=foo:{i}\r\n") } else { format!("m=audio {i} RTP/AVP 0\r\na=foo:{i}\r\na=mid:{i}\r\n") })
                .collect();
            l.push(format!("{PRE_TC}{u}"));
            l.push(format!("{PRE_TC}{m}"));
            l.push(format!("{PRE_TC}{mix}"));
            l.push(format!("{PRE_TC}{u}m=audio 9 RTP/AVP 0\r\n{u}a=mid:x\r\n"));
            l.push(format!("{PRE_TC}{u}a=setup:bad\r\n"));
            l.push(format!("{PRE_TC}a=setup:bad\r\n{u}"));
        }
        e.list("doc", "numbers of unsupported lines", l);
        let cx = contexts(e.thorough());
        let n = ul.len();
        e.sweep("doc", "every odd line in every context", cx.len() * n * 6 * ARRS, |i| {
            let (a, f, x, c) = (i % ARRS, i / ARRS % 6, i / ARRS / 6 % n, &cx[i / ARRS / 6 / n]);
            let l = format!("{}\r\n", ul[x]);
            let (s, m) = [("", l.as_str()), (l.as_str(), ""), (l.as_str(), l.as_str())][f / 2];
            c.doc(USUAL, a, s, m, f % 2 == 1)
        });
    }
    fn decide(&self, _: &str, payload: &str) -> Verdict {
        let l = doc_verdict(payload)?;
        // metamorphic: the document without its unsupported lines, and without the sections of
        // unsupported media lines
        let lines = refparse::split_lines(payload);
        let mut kept = String::new();
        let mut skip = false;
        let mut removed = false;
        for x in &lines {
            let r = proj::parse_line(x);
            trans(1);
            match r {
                Err(Cls::Unsup) => {
                    removed = true;
                    if x.trim_start().starts_with(['m', 'M']) {
                        skip = true;
                    }
                    continue;
                }
                Ok(T("m=", _)) => skip = false,
                _ => {}
            }
            if skip && !matches!(r, Err(Cls::Err)) {
                continue;
            }
            kept.push_str(x);
            kept.push_str("\r\n");
        }
        let (a, b) = (proj::parse(payload, false), proj::parse(&kept, false));
        trans(2);
        match (&a, &b) {
            (Out::Ok(x, w), Out::Ok(y, v)) => {
                if x != y {
                    return Err(format!("differs from the document without the unsupported lines: {}", diff(x, y)));
                }
                if !v.is_empty() || w.is_empty() == removed {
                    return Err(format!("warnings {w:?} and, without the unsupported lines, {v:?}"));
                }
            }
            (Out::Ok(..), _) | (_, Out::Ok(..)) => {
                return Err(format!("{} but without the unsupported lines {}", refparse::short(&a), refparse::short(&b)));
            }
            _ => {}
        }
        let strict = proj::parse(payload, true);
        trans(1);
        if !removed && strict != a {
            return Err(format!(
                "without unsupported lines both modes must agree: {} and {}",
                refparse::short(&a),
                refparse::short(&strict)
            ));
        }
        Ok(l)
    }
}

// ------------------------------------------------------------------------------------------- C08

impl Check for Locations {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "every erroneous, unsupported or misplaced line (alone and in pairs, padded, with either line end, behind any number of blank lines) at every place of a \
         document and through the single-line entry point with several line numbers; the number must index a line of exactly the quoted text that is itself refused, and the printed \
         error must contain both"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![REF]
    }
    fn must_see(&self) -> Vec<&'static str> {
        vec!["accepted-with-warnings", "line-error", "sequence-error", "located"]
    }
    fn explore(&self, e: &Engine) {
        let base: Vec<&str> = vec![
            "v=0",
            "o=- 1 2 IN IP4 127.0.0.1",
            "s=-",
            "",
            "t=0 0",
            "c=IN IP4 10.9.9.9",
            "m=audio 9 RTP/AVP 0",
            "c=IN IP4 10.9.9.8",
            "a=mid:0",
            "  ",
            "m=video 9 RTP/AVP 96",
            "a=mid:1",
        ];
        let wrong_place = ["c=IN IP4 10.0.0.1", "a=group:BUNDLE 0", "a=mid:7", "t=1 1", "v=0", "o=- 3 4 IN IP4 9.9.9.9", "s=x", "a=ice-lite", "a=rtcp-mux", "a=identity:x"];
        let mut odd: Vec<String> = UNSUPPORTED.iter().chain(ERRONEOUS).chain(&wrong_place).map(|x| x.to_string()).collect();
        for x in ["  a=foo:1  ", "\ta=setup:bad", "a =foo", " i=x ", "a=é:x", "m=text 9 RTP/AVP 0 \t", "b=é", "A=FOO", "   x   "] {
            odd.push(x.into());
        }
        let b = base.len() + 1;
        let k = odd.len();
        let doc = |v: &[&str], style: usize| match style {
            0 => v.join("\r\n") + "\r\n",
            1 => v.join("\n") + "\n",
            2 => v.join("\n"),
            _ => v.iter().enumerate().map(|(i, x)| format!("{x}{}", if i % 2 == 0 { "\n" } else { "\r\n" })).collect(),
        };
        e.sweep("doc", "every odd line at every place, four line end styles", k * b * 4, |i| {
            let (s, x, p) = (i % 4, i / 4 % k, i / 4 / k);
            let mut v = base.clone();
            v.insert(p, &odd[x]);
            doc(&v, s)
        });
        e.sweep("doc", "every two odd lines at every two places", k * k * b * b, |i| {
            let (x, y, p, q) = (i % k, i / k % k, i / k / k % b, i / k / k / b);
            let mut v: Vec<&str> = base.clone();
            v.insert(p, &odd[x]);
            v.insert(q, &odd[y]);
            doc(&v, (x + y + p + q) % 4)
        });
        let mut l = vec![];
        for n in lens(e).into_iter().filter(|n| *n <= 1100) {
            for x in &odd {
                if n > 64 && x.len() > 6 {
                    continue;
                }
                for blank in ["\r\n", "\n", " \n"] {
                    l.push(format!("{}{PRE_TC}{x}\r\n", blank.repeat(n)));
                    l.push(format!("{PRE_TC}{}{x}\r\nm=audio 9 RTP/AVP 0\r\n", blank.repeat(n)));
                }
                l.push(format!("{PRE_TC}{}{x}\n{x}", "b=AS:1\r\n".repeat(n)));
                l.push(format!("{PRE_TC}{}m=video 5 RTP/AVP 96\n{x}", "m=audio 9 RTP/AVP 0\r\n".repeat(n)));
            }
        }
        for n in [65_530, 65_536, 66_000] {
            for fill in ["\n", "b=AS:1\n", "a=sendonly\r\n", "a=foo\n"] {
                for x in ["a=setup:bad", "a=foo", "i=x", "a=mid:7", "c=IN IP4 10.0.0.1", "m=text 9 RTP/AVP 0"] {
                    // time grows with the square of the number of lines that are kept
                    if x != "a=setup:bad" && !["\n", "a=foo\n"].contains(&fill) {
                        continue;
                    }
                    l.push(format!("{PRE_TC}{}{x}\n", fill.repeat(n)));
                    l.push(format!("{PRE_TC}m=audio 9 RTP/AVP 0\n{}{x}\na=group:BUNDLE 0\n", fill.repeat(n)));
                }
            }
        }
        for n in [60, 64, 72, 80, 100, 120, 128, 200, 255, 256, 257, 500, 512, 513, 1000, 1024, 1025, 2000, 4096, 4097, 10_000, 65_536, 70_000] {
            for x in ["a=unknown:", "a=", "a=setup:", "b=", "x=", "", "i=", "m=text 9 RTP/AVP ", "m=audio 9 UDP/", "a=fingerprint:"] {
                for fill in ["x", "é", " y"] {
                    if fill == " y" && x.starts_with("m=") {
                        continue; // wrong and unsupported at once
                    }
                    let y = fill.repeat(n / fill.len());
                    l.push(format!("{PRE_TC}m=audio 9 RTP/AVP 0\r\n{x}{y}end\r\n"));
                    l.push(format!("{PRE_TC}{x}{y}end\na=ice-lite"));
                }
            }
        }
        e.list("doc", "behind many blank and valid lines, and very long lines", l);
        let nums = [0usize, 1, 2, 9, 10, 255, 256, 65535, 65536, 4_294_967_295, 4_294_967_296, usize::MAX];
        let mut l = vec![];
        for x in odd.iter().map(String::as_str).chain(text::LINE_SAMPLES.iter().copied()) {
            for n in nums {
                l.push(format!("{n}\n{x}"));
            }
        }
        e.list("line", "single lines with a given number", l);
        let cx = contexts(e.thorough());
        e.sweep("doc", "every odd line in every context", cx.len() * k * 4 * ARRS, |i| {
            let (a, f, x, c) = (i % ARRS, i / ARRS % 4, i / ARRS / 4 % k, &cx[i / ARRS / 4 / k]);
            let l = format!("{}\r\n", odd[x]);
            if f / 2 == 0 {
                c.doc(USUAL, a, &l, "", f % 2 == 1)
            } else {
                c.doc(USUAL, a, "", &l, f % 2 == 1)
            }
        });
        let d = e.pick3(5, 6, 7);
        let items = ["a=foo:{}", "a=setup:b{}", "", "c=IN IP4 10.0.0.{}", "m=audio {} RTP/AVP 0", "a=mid:{}", "a=ice-lite", "m=text {} RTP/AVP 0"];
        seq_sweep(e, "doc", "sequences", PRE_TC, &items, d);
        // the first lines of a document in any order, with blank and unsupported lines between
        let start = ["v=0", "", "o=- {} 2 IN IP4 127.0.0.1", "s={}", "t=0 0", "a=foo:{}", "m=audio {} RTP/AVP 0"];
        let d = e.pick(6, 8);
        seq_sweep(e, "doc", "first lines", "", &start, d);
    }
    fn decide(&self, kind: &str, payload: &str) -> Verdict {
        if kind == "line" {
            let (n, x) = payload.split_once('\n').ok_or("bad case")?;
            let n: usize = n.parse().map_err(|_| "bad case")?;
            trans(1);
            trace();
            return match parse_sdp_line(x, n) {
                Ok(l) => {
                    if l.line_number == n && l.text == x {
                        Ok("located")
                    } else {
                        Err(format!("line {n} {x:?} is reported as line {} {:?}", l.line_number, l.text))
                    }
                }
                Err(e) => match proj::loc(&e) {
                    Out::Line(l) | Out::Unsup(l) if l.number == n && l.text == x => {
                        printed(&e, n, x)?;
                        Ok("located")
                    }
                    _ => Err(format!("line {n} {x:?} is refused as {e}")),
                },
            };
        }
        let l = doc_verdict(payload)?;
        let lines = refparse::split_lines(payload);
        for strict in [false, true] {
            let errs = match parse_sdp(payload, strict) {
                Ok(s) => s.warnings,
                Err(e) => vec![e],
            };
            trans(1);
            for e in &errs {
                match proj::loc(e) {
                    Out::Line(l) | Out::Unsup(l) => {
                        if payload.is_empty() {
                            continue;
                        }
                        if lines.get(l.number) != Some(&l.text) {
                            return Err(format!("{e} quotes a text that is not line {} of the input", l.number));
                        }
                        let c = proj::parse_line(&l.text);
                        let want = if matches!(proj::loc(e), Out::Line(_)) { Cls::Err } else { Cls::Unsup };
                        if c != Err(want) {
                            return Err(format!("{e}: this line alone gives {c:?}"));
                        }
                        printed(e, l.number, &l.text)?;
                    }
                    Out::Seq(n) => printed(e, n, "")?,
                    Out::Ok(..) => {}
                }
            }
        }
        Ok(l)
    }
}
fn printed(e: &webrtc_sdp::error::SdpParserError, n: usize, text: &str) -> Result<(), String> {
    let t = e.to_string();
    if t.contains(&n.to_string()) && t.contains(text) {
        Ok(())
    } else {
        Err(format!("the printed error {t:?} lacks the number {n} or the text {text:?}"))
    }
}
