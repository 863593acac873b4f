//! C26: the other public ways into the library agree with parsing a document.
use super::docs::*;
use super::text::{edit_sweep, LINE_SAMPLES};
use super::*;
use crate::alpha::*;
use std::convert::{TryFrom, TryInto};
use std::error::Error;
use webrtc_sdp::address::{Address, AddressType, AddressTyped, ExplicitlyTypedAddress as Typed};
use webrtc_sdp::attribute_type::*;
use webrtc_sdp::error::{SdpParserError, SdpParserInternalError as Inner};
use webrtc_sdp::media_type::{parse_media, parse_media_vector, SdpMediaValue};
use webrtc_sdp::network::*;
use webrtc_sdp::{parse_sdp, parse_sdp_line, SdpLine, SdpSession, SdpType};

pub struct Entry;
pub static C26: Entry = Entry;

const LINES: &[&str] = &[
    "a=ice-ufrag:u{}",
    "a=group:BUNDLE {}",
    "a=mid:m{}",
    "b=AS:{}",
    "c=IN IP4 10.0.0.{}",
    "t=0 {}",
    "s=n{}",
    "m=audio {} RTP/AVP 0",
    "m=application {} DTLS/SCTP x",
    "a=dtls-message:client m{}",
    "a=foo:{}",
];

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, a: &T, b: &T) -> Result<(), String> {
    if a == b {
        Ok(())
    } else {
        Err(format!("{what}: {a:?} and {b:?}"))
    }
}
fn value<T>(r: &Result<T, Inner>, f: impl Fn(&T) -> V) -> Result<V, Cls> {
    r.as_ref().map(f).map_err(proj::icls)
}
/// The cause that an inner error must name.
fn inner(e: &Inner) -> Result<(), String> {
    let t = e.to_string();
    let want = match e {
        Inner::Integer(x) => Some(x.to_string()),
        Inner::Float(x) => Some(x.to_string()),
        Inner::Domain(x) => Some(x.to_string()),
        Inner::IpAddress(x) => Some(x.to_string()),
        Inner::Generic(x) | Inner::Unsupported(x) | Inner::UnknownAddressType(x) => {
            if !t.contains(x.as_str()) {
                return Err(format!("the error {t:?} leaves out {x:?}"));
            }
            None
        }
        Inner::AddressTypeMismatch { found, expected } => {
            if found == expected || !t.contains(&format!("{found}, {expected}")) {
                return Err(format!("the error {t:?} leaves out {found}, {expected}"));
            }
            None
        }
    };
    let got = e.source().map(|x| x.to_string());
    eq("cause of an error", &want, &got)?;
    match want {
        Some(w) if !t.contains(&w) => Err(format!("the error {t:?} leaves out its cause {w:?}")),
        _ => Ok(()),
    }
}
fn outer(e: &SdpParserError) -> Result<(), String> {
    let t = e.to_string();
    match e {
        SdpParserError::Line { error, line, line_number } | SdpParserError::Unsupported { error, line, line_number } => {
            inner(error)?;
            eq("cause of a line error", &Some(error.to_string()), &e.source().map(|x| x.to_string()))?;
            for x in [&error.to_string(), line, &line_number.to_string()] {
                if !t.contains(x.as_str()) {
                    return Err(format!("the error {t:?} leaves out {x:?}"));
                }
            }
            if matches!(e, SdpParserError::Unsupported { .. }) != matches!(error, Inner::Unsupported(_)) {
                return Err(format!("the kinds of {t:?} and {error:?} differ"));
            }
        }
        SdpParserError::Sequence { message, line_number } => {
            if e.source().is_some() {
                return Err(format!("the sequence error {t:?} has a cause"));
            }
            for x in [message, &line_number.to_string()] {
                if !t.contains(x.as_str()) {
                    return Err(format!("the error {t:?} leaves out {x:?}"));
                }
            }
        }
    }
    Ok(())
}

/// A single line, against the entry points for its value.
fn one_line(x: &str) -> Verdict {
    let by = parse_sdp_line(x, 4711);
    trans(1);
    trace();
    let got = match &by {
        Ok(l) => {
            eq("number of the line", &l.line_number, &4711)?;
            eq("text of the line", &l.text.as_str(), &x)?;
            Ok(proj::line(&l.sdp_type))
        }
        Err(e) => {
            outer(e)?;
            match proj::loc(e) {
                Out::Line(l) => {
                    eq("error", &l, &Loc { number: 4711, text: x.into() })?;
                    Err(Cls::Err)
                }
                Out::Unsup(l) => {
                    eq("error", &l, &Loc { number: 4711, text: x.into() })?;
                    Err(Cls::Unsup)
                }
                _ => return Err("a sequence error of a single line".into()),
            }
        }
    };
    state(&got);
    let Some((t, v)) = x.split_once('=') else { return Ok("no-value") };
    if v.trim().is_empty() {
        return Ok("no-value");
    }
    match t.trim() {
        "a" | "A" => {
            let v = v.trim();
            let a = v.parse::<SdpAttribute>();
            trans(2);
            eq("attribute and line", &value(&a, |a| T("a=", vec![proj::attr(a)])), &got)?;
            eq("attribute value and line", &value(&parse_attribute(v), proj::line), &got)?;
            eq("padded attribute value and line", &value(&parse_attribute(&format!(" {v}\t")), proj::line), &got)?;
            match &a {
                Ok(a) => {
                    let k = SdpAttributeType::from(a);
                    let n = v.split(':').next().unwrap_or("").to_lowercase();
                    eq("name of the kind", &k.to_string(), &n)?;
                    Ok("attribute")
                }
                Err(e) => {
                    inner(e)?;
                    Ok("attribute-refused")
                }
            }
        }
        "m" | "M" => {
            trans(1);
            eq("media value and line", &value(&parse_media(v.trim()), proj::line), &got)?;
            Ok(if got.is_ok() { "media" } else { "media-refused" })
        }
        "c" | "C" => {
            let p: Vec<&str> = v.split_whitespace().collect();
            let [net, ty, a] = p[..] else { return Ok("other") };
            if a.contains('/') {
                return Ok("other");
            }
            trans(4);
            let parts = parse_network_type(net)
                .and_then(|_| parse_address_type(ty))
                .and_then(|t| Typed::try_from((t, a)).map(|x| (t, x)));
            if let Ok((t, x)) = &parts {
                eq("declared type", &x.address_type(), t)?;
                let h = parse_unicast_address(a).map_err(|e| format!("address: {e}"))?;
                eq("address with and without type", &proj::addr(&Address::from(x.clone())), &proj::addr(&h))?;
                eq("type by name", &ty.parse::<AddressType>().ok(), &Some(*t))?;
                eq("number of the type", &(*t as u8), &if ty.ends_with('4') { 4 } else { 6 })?;
                if let Address::Ip(i) = h {
                    eq("type of the IP address", &i.address_type(), t)?;
                    eq("IP address as a typed one", &proj::taddr(&Typed::from(i)), &proj::taddr(x))?;
                    eq("printed IP address", &ip_address_to_string(i), &x.to_string())?;
                }
            }
            let got = got.map(|_| ());
            match (&parts, &got) {
                (Ok((_, x)), Ok(_)) => {
                    let l = by.map_err(|_| "refused")?;
                    let SdpType::Connection(c) = &l.sdp_type else { return Err("not a connection".into()) };
                    eq("address and connection line", &proj::taddr(x), &proj::taddr(&c.address))?;
                    Ok("connection")
                }
                (Err(e), Err(c)) => {
                    inner(e)?;
                    eq("class of the refusal", &proj::icls(e), c)?;
                    Ok("connection-refused")
                }
                _ => Err(format!("the parts of the address give {}, the line {}", parts.is_ok(), got.is_ok())),
            }
        }
        _ => Ok("other"),
    }
}

/// A document, against its lines handed over one list at a time.
fn by_lines(x: &str) -> Verdict {
    let whole = parse_sdp(x, false);
    trans(1);
    trace();
    if let Err(e) = &whole {
        outer(e)?;
    }
    let out = proj::out(&whole);
    state(&out_key(&out));
    let mut lines: Vec<SdpLine> = vec![];
    for (i, l) in x.lines().enumerate() {
        if l.trim().is_empty() {
            continue;
        }
        trans(1);
        match parse_sdp_line(l, i) {
            Ok(l) => lines.push(l),
            Err(SdpParserError::Unsupported { .. }) if !l.trim().starts_with(['m', 'M']) => (),
            Err(_) => return Ok("bad-line"),
        }
    }
    if lines.len() < 4 {
        return Ok("too-short");
    }
    let rest = lines.split_off(3);
    let mut head = lines.into_iter().map(|l| l.sdp_type);
    let (Some(SdpType::Version(v)), Some(SdpType::Origin(o)), Some(SdpType::Session(n))) = (head.next(), head.next(), head.next())
    else {
        return Ok("wrong-head");
    };
    let first = rest.iter().position(|l| matches!(l.sdp_type, SdpType::Media(_))).unwrap_or(rest.len());
    let mut label = "";
    // the numbers of the lines are the caller's
    for (by, f) in NUMBERINGS.iter().enumerate() {
        // what the lists must refuse
        for (i, l) in rest.iter().enumerate() {
            let k = f(l.line_number);
            let mut one = again(&rest[i..], f);
            trans(1);
            match &l.sdp_type {
                SdpType::Media(_) => {
                    let r = SdpSession::new(v, o.clone(), n.to_string()).parse_session_vector(&mut one);
                    seq("a media line among the session's", &r, k)?;
                }
                _ => seq("a media section without a media line", &parse_media_vector(&mut one), k)?,
            }
        }
        for cut in if by == 0 { 0..=first } else { first..=first } {
            let mut s = SdpSession::new(v, o.clone(), n.clone());
            let (mut a, mut b, mut c) = (again(&rest[..cut], f), again(&rest[cut..first], f), again(&rest[first..], f));
            let r = s.parse_session_vector(&mut a).and_then(|_| s.parse_session_vector(&mut b)).and_then(|_| parse_media_vector(&mut c));
            trans(3);
            label = match (r, &out) {
                (Ok(m), Out::Ok(want, _)) => {
                    s.extend_media(m);
                    let got = proj::sess(&s);
                    if got != *want {
                        return Err(format!("line lists: {}", diff(want, &got)));
                    }
                    if let Ok(w) = &whole {
                        eq("printed session", &s.to_string(), &w.to_string())?;
                    }
                    "same-session"
                }
                // the rules for a whole session are not those of the lists
                (Ok(_), Out::Seq(0)) => "whole-session-rule",
                (Ok(_), o) => return Err(format!("the line lists are accepted, the document gives {o:?}")),
                (Err(e), o) => {
                    outer(&e)?;
                    let mut o = o.clone();
                    match &mut o {
                        Out::Line(l) | Out::Unsup(l) => l.number = f(l.number),
                        Out::Seq(i) => *i = f(*i),
                        Out::Ok(..) => (),
                    }
                    eq("refusal by lists and of the document", &proj::loc(&e), &o)?;
                    "same-refusal"
                }
            };
        }
    }
    Ok(label)
}
const NUMBERINGS: &[fn(usize) -> usize] = &[|n| n, |_| 0, |_| usize::MAX, |n| 1000usize.wrapping_sub(n)];
fn seq<T>(what: &str, r: &Result<T, SdpParserError>, n: usize) -> Result<(), String> {
    match r {
        // an earlier line of the list may be the one refused
        Err(e @ SdpParserError::Sequence { line_number, .. }) if *line_number == n => outer(e),
        Err(e) => Err(format!("{what} at {n} gives {e}")),
        Ok(_) => Err(format!("{what} at {n} is accepted")),
    }
}
fn again(l: &[SdpLine], f: &fn(usize) -> usize) -> Vec<SdpLine> {
    l.iter().map(|l| parse_sdp_line(&l.text, f(l.line_number)).ok()).collect::<Option<_>>().unwrap_or_default()
}

const HASHES: [(SdpAttributeFingerprintHashType, &str, usize); 5] = [
    (SdpAttributeFingerprintHashType::Sha1, "sha-1", 20),
    (SdpAttributeFingerprintHashType::Sha224, "sha-224", 28),
    (SdpAttributeFingerprintHashType::Sha256, "sha-256", 32),
    (SdpAttributeFingerprintHashType::Sha384, "sha-384", 48),
    (SdpAttributeFingerprintHashType::Sha512, "sha-512", 64),
];

/// `NAME OCTETS`
fn fingerprint(x: &str) -> Verdict {
    let (n, t) = x.split_once(' ').unwrap_or((x, ""));
    trans(4);
    trace();
    let want = HASHES.iter().find(|h| h.1 == n);
    let Some((h, name, count)) = want else {
        return match SdpAttributeFingerprintHashType::try_from_name(n) {
            Err(e) => {
                inner(&e)?;
                eq("class", &proj::icls(&e), &Cls::Unsup)?;
                Ok("no-hash")
            }
            Ok(h) => Err(format!("{n:?} is taken for {h}")),
        };
    };
    let got = SdpAttributeFingerprintHashType::try_from_name(n).map_err(|e| e.to_string())?;
    eq("hash by name", &(got == *h), &true)?;
    eq("name of the hash", &got.to_string().as_str(), name)?;
    eq("number of octets", &got.octet_count(), count)?;
    let want: Option<Vec<u8>> = t
        .split(':')
        .map(|x| {
            let d: Vec<u32> = x.chars().map(|c| c.to_digit(16)).collect::<Option<_>>()?;
            (d.len() == 2).then(|| (d[0] * 16 + d[1]) as u8)
        })
        .collect();
    let bytes = got.parse_octets(t);
    state(&bytes.is_ok());
    match (&want, &bytes) {
        (Some(w), Ok(b)) if w == b && w.len() == *count => (),
        (Some(w), Err(e)) if w.len() != *count => inner(e)?,
        (None, Err(e)) => inner(e)?,
        _ => return Err(format!("octets {t:?} of {n} give {}", bytes.is_ok())),
    }
    if let Some(w) = want {
        let a: Result<SdpAttributeFingerprint, Inner> = (*h, w.clone()).try_into();
        match &a {
            Ok(a) => {
                eq("octets of the fingerprint", &a.fingerprint, &w)?;
                eq("hash of the fingerprint", &(a.hash_algorithm == *h), &true)?;
                eq("length", &w.len(), count)?;
            }
            Err(e) => {
                inner(e)?;
                if w.len() == *count {
                    return Err(format!("{} octets are refused for {n}", w.len()));
                }
            }
        }
        eq("fingerprint by parts and by octets", &a.is_ok(), &bytes.is_ok())?;
    }
    let line = format!("fingerprint:{n} {t}").parse::<SdpAttribute>();
    match (&bytes, &line) {
        (Ok(b), Ok(SdpAttribute::Fingerprint(f))) => {
            eq("octets of the attribute", b, &f.fingerprint)?;
            eq("hash of the attribute", &(f.hash_algorithm == *h), &true)?;
            Ok("fingerprint")
        }
        (Err(_), Err(_)) => Ok("fingerprint-refused"),
        _ => Err(format!("octets {t:?} of {n}: parts {}, attribute {}", bytes.is_ok(), line.is_ok())),
    }
}

/// `WHAT NUMBER TEXT`: the constructors.
fn made(x: &str) -> Verdict {
    let p: Vec<&str> = x.splitn(3, ' ').collect();
    let n: u64 = p[1].parse().map_err(|_| "bad case")?;
    let t = p[2];
    trans(2);
    trace();
    let parsed = |t: String| t.parse::<SdpAttribute>().map(|a| proj::attr(&a)).map_err(|e| e.to_string());
    let same = |a: SdpAttribute, want: V| -> Verdict {
        let v = proj::attr(&a);
        state(&v);
        eq("constructed and parsed", &v, &want)?;
        Ok("made")
    };
    match p[0] {
        "rtcp" => same(SdpAttribute::Rtcp(SdpAttributeRtcp::new(n as u16)), parsed(format!("rtcp:{}", n as u16))?),
        "ssrc" => {
            let a = SdpAttributeSsrc::new(n as u32);
            if a.attribute.is_some() || a.value.is_some() {
                return Err("a new ssrc has an attribute".into());
            }
            same(SdpAttribute::Ssrc(a), parsed(format!("ssrc:{}", n as u32))?)
        }
        "rtpmap" => same(
            SdpAttribute::Rtpmap(SdpAttributeRtpmap::new((n % 128) as u8, t.into(), n as u32)),
            parsed(format!("rtpmap:{} {t}/{}", n % 128, n as u32))?,
        ),
        "candidate" => {
            let a: Address = "h.example".parse().map_err(|_| "address")?;
            let kinds = [
                (SdpAttributeCandidateType::Host, "host"),
                (SdpAttributeCandidateType::Srflx, "srflx"),
                (SdpAttributeCandidateType::Prflx, "prflx"),
                (SdpAttributeCandidateType::Relay, "relay"),
            ];
            for (k, kn) in kinds {
                for (tr, tn) in [(SdpAttributeCandidateTransport::Udp, "UDP"), (SdpAttributeCandidateTransport::Tcp, "TCP")] {
                    let c = SdpAttributeCandidate::new(t.into(), n as u32, tr, n, a.clone(), (n % 65536) as u32, k.clone());
                    let text = format!("candidate:{t} {} {tn} {n} h.example {} typ {kn}", n as u32, n % 65536);
                    eq("printed", &c.to_string(), &text["candidate:".len()..].to_string())?;
                    if n <= u64::from(u32::MAX) {
                        same(SdpAttribute::Candidate(c), parsed(text)?)?;
                    }
                }
            }
            Ok("made")
        }
        "ids" => {
            let a = SdpAttributeSimulcastVersion::new(t);
            let s = SdpAttributeSimulcast { send: vec![a], receive: vec![] };
            same(SdpAttribute::Simulcast(s), parsed(format!("simulcast:send {t}"))?)
        }
        "id" => {
            let a = SdpAttributeSimulcastId::new(t);
            eq("printed id", &a.to_string().as_str(), &t)?;
            let s = SdpAttributeSimulcast { send: vec![SdpAttributeSimulcastVersion { ids: vec![a] }], receive: vec![] };
            same(SdpAttribute::Simulcast(s), parsed(format!("simulcast:send {t}"))?)
        }
        "param" => {
            eq("parameter that is the default", &maybe_print_param(t, n, n).as_str(), &"")?;
            eq("parameter", &maybe_print_param(t, n, n.wrapping_add(1)), &format!("{t}{n}"))?;
            for (a, b) in [(false, false), (false, true), (true, false), (true, true)] {
                let want = if a == b { String::new() } else { format!("{t}={}", u8::from(a)) };
                eq("switch", &maybe_print_bool_param(t, a, b), &want)?;
            }
            Ok("made")
        }
        // numbers that code on the other side of a foreign interface relies on
        "numbers" => {
            eq("directions", &(SdpSingleDirection::Send as u8, SdpSingleDirection::Recv as u8), &(1, 2))?;
            use SdpAttributeRtcpFbType as F;
            let f = [F::Ack as u8, F::Ccm as u8, F::Nack as u8, F::TrrInt as u8, F::Remb as u8, F::TransCc as u8];
            eq("feedback types", &f, &[0, 2, 3, 4, 5, 6])?;
            eq("address types", &(AddressType::IpV4 as u8, AddressType::IpV6 as u8), &(4, 6))?;
            eq("kinds of media", &(SdpMediaValue::Audio as u8, SdpMediaValue::Video as u8, SdpMediaValue::Application as u8), &(0, 1, 2))?;
            Ok("made")
        }
        _ => Err("bad case".into()),
    }
}

impl Check for Entry {
    fn id(&self) -> &'static str {
        "C26"
    }
    fn rule(&self) -> &'static str {
        "every sample, every single edit of it and boundary texts through the parser of a line, of an attribute, of a media value and of addresses, \
         which must agree in value or class; all sequences of lines up to a depth as one document and as line lists, cut at every place; all \
         fingerprint parts up to a length; the constructors with boundary values; the causes of all errors met"
    }
    fn must_see(&self) -> Vec<&'static str> {
        vec![
            "attribute", "attribute-refused", "media", "media-refused", "connection", "connection-refused", "same-session", "same-refusal",
            "whole-session-rule", "fingerprint", "fingerprint-refused", "no-hash", "made",
        ]
    }
    fn explore(&self, e: &Engine) {
        let mut l: Vec<String> = LINE_SAMPLES.iter().map(|x| x.to_string()).collect();
        l.extend(samples().iter().map(|x| format!("a={x}")));
        l.extend(["c=IN IP4 1.2.3.4", "c=IN IP6 h.example", "c=in ip4 h.example", "c=IN IP6 1.2.3.4", "m=text 9 RTP/AVP 0", "a=foo:bar", "a=setup:x"].map(String::from));
        e.list("line", "every sample of a line or an attribute", l.clone());
        edit_sweep(e, "line", "every single edit of them", &l);
        let t = tm(&[
            &["c="],
            &["IN", "in", "IP", "I", "INN"],
            &["IP4", "ip4", "IP6", "iP6", "IP5", "IPV4", "4"],
            &[
                "1.2.3.4", "0.0.0.0", "255.255.255.255", "1.2.3", "1.2.3.256", "::1", "::", "::ffff:1.2.3.4", "fe80::1", "1::2::3", "[::1]", "h.example",
                "H.EXAMPLE", "h", "-", "h_x", "127.1", "0x7f.1", "h%20x", "xn--bcher-kva.example", "h..x", "1.2.3.4.5",
            ],
        ]);
        let p = t.picks(4);
        e.sweep("line", "addresses of every kind with declared types", p.len(), |i| t.join(&p[i], " ").replacen("= ", "=", 1));
        const CH: [&str; 12] = [" ", ":", "/", "=", "0", "9", "a", "M", "-", ".", "\t", "é"];
        let n = seq_count(CH.len(), e.pick3(4, 5, 6));
        for pre in ["", "a=", "m=audio 9 RTP/AVP ", "a=ice-lite", "a=mid:", "a=rtpmap:9 ", "c=IN IP4 "] {
            e.sweep("line", &format!("every short text of sharp characters after {pre:?}"), n, |i| {
                seq_at(CH.len(), i).iter().fold(pre.to_string(), |x, c| x + CH[*c])
            });
        }
        seq_sweep(e, "doc", "all kinds of lines", PRE, LINES, e.pick3(5, 6, 7));
        seq_sweep(e, "doc", "all kinds of lines", PRE_TC, LINES, e.pick3(4, 5, 6));
        seq_sweep(e, "doc", "all kinds of lines", &format!("{PRE_TC}m=video 9 RTP/AVP 96\r\n"), LINES, e.pick(4, 5));
        let sm = samples();
        let n = sm.len();
        e.sweep("doc", "all ordered pairs of attribute samples at each level", n * n * 3, |i| {
            let (a, b) = (&sm[i / 3 % n], &sm[i / 3 / n]);
            match i % 3 {
                0 => format!("{PRE_TC}a={a}\r\na={b}\r\n"),
                1 => format!("{PRE_TC}{MLINE}a={a}\r\na={b}\r\n"),
                _ => format!("{PRE_TC}a={b}\r\n{MLINE}a={a}\r\n{MLINE}a={b}\r\n"),
            }
        });
        let mut l = vec![];
        for n in lens(e).into_iter().filter(|n| *n <= 300) {
            let at: String = (0..n).map(|i| format!("a=ice-ufrag:u{i}\r\nb=X{i}:{i}\r\n")).collect();
            let me: String = (0..n).map(|i| format!("m=audio {} RTP/AVP 0\r\na=mid:{i}\r\nb=AS:{i}\r\n", i % 65536)).collect();
            l.push(format!("{PRE_TC}{MLINE}{at}"));
            l.push(format!("{PRE_TC}{me}"));
            if n <= 64 {
                l.push(format!("{PRE_TC}{at}"));
            }
        }
        e.list("doc", "list lengths", l);
        let mut l = vec![];
        let w = words();
        for name in HASHES.iter().map(|h| h.1).chain(["SHA-1", "sha-256x", "sha1", "md5", "", "sha-2", "sha-2560", "sha-5"]).chain(w.iter().map(String::as_str)) {
            for n in 0..=70 {
                let t = fp(n, 3);
                l.push(format!("{name} {t}"));
                l.push(format!("{name} {}", t.to_lowercase()));
                l.push(format!("{name} {t}:"));
                l.push(format!("{name} :{t}"));
            }
        }
        for h in HASHES {
            let t = fp(h.2, 9);
            for i in 0..=255u8 {
                for at in [0, 1, h.2 - 1] {
                    let mut b: Vec<String> = t.split(':').map(String::from).collect();
                    b[at] = format!("{i:02X}");
                    l.push(format!("{} {}", h.1, b.join(":")));
                }
            }
            for i in 0..super::text::edit_count(&t) {
                let x = super::text::edit_at(&t, i);
                if x == x.trim() && !x.contains([' ', '\t']) {
                    l.push(format!("{} {x}", h.1));
                }
            }
        }
        e.list("fp", "fingerprints by parts", l);
        let mut l = vec!["numbers 0 x".to_string()];
        let nums: Vec<u64> = (0..=64)
            .flat_map(|b| {
                let x: u64 = if b == 64 { u64::MAX } else { 1 << b };
                [x, x - 1, x.wrapping_add(1)]
            })
            .chain(0..300)
            .collect();
        for n in &nums {
            for t in ["x", "VP8", "-", "ice-char+/9"] {
                for w in ["rtcp", "ssrc", "candidate", "rtpmap", "param"] {
                    if w == "rtpmap" && t.contains('/') {
                        continue; // not a codec name
                    }
                    l.push(format!("{w} {n} {t}"));
                }
            }
        }
        let ids = ["a", "~a", "1", "b-c", "~~d", "a~", "a~b"];
        for x in ids {
            l.push(format!("id 0 {x}"));
        }
        for s in seqs(&ids, 1, e.pick(4, 5)) {
            l.push(format!("ids 0 {}", s.join(",")));
        }
        e.list("made", "the constructors", l);
    }
    fn decide(&self, kind: &str, x: &str) -> Verdict {
        match kind {
            "line" => one_line(x),
            "doc" => by_lines(x),
            "fp" => fingerprint(x),
            _ => made(x),
        }
    }
}
