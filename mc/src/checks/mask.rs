//! C20: anonymized sessions.
use super::docs::{one_per_name, PRE_T};
use super::*;
use crate::alpha::*;
use std::collections::HashMap;
use webrtc_sdp::anonymizer::{AnonymizingClone, StatefulSdpAnonymizer as Anon};
use webrtc_sdp::parse_sdp;

pub struct Masked;
pub static C20: Masked = Masked;

const SEP: char = '\u{1e}';

/// The model of masking: the leaves that are replaced, and by what.
pub struct Mask<'a> {
    anon: &'a mut Anon,
    fwd: HashMap<(&'static str, V), V>,
    back: HashMap<(&'static str, V), V>,
    clash: Option<String>,
    leaves: usize,
}
impl Mask<'_> {
    pub fn new(anon: &mut Anon) -> Mask {
        Mask { anon, fwd: HashMap::new(), back: HashMap::new(), clash: None, leaves: 0 }
    }
    fn note(&mut self, kind: &'static str, a: &V, b: V) -> V {
        self.leaves += 1;
        if let Some(o) = self.fwd.insert((kind, a.clone()), b.clone()) {
            if o != b {
                self.clash = Some(format!("{kind} {a:?} is masked as {o:?} and as {b:?}"));
            }
        }
        if let Some(o) = self.back.insert((kind, b.clone()), a.clone()) {
            if o != *a {
                self.clash = Some(format!("{kind} {o:?} and {a:?} are both masked as {b:?}"));
            }
        }
        b
    }
    fn string(&mut self, kind: &'static str, v: &V) -> V {
        let S(x) = v else { return v.clone() };
        let m = match kind {
            "user" => self.anon.mask_origin_user(x),
            "pwd" => self.anon.mask_ice_password(x),
            "ufrag" => self.anon.mask_ice_user(x),
            "cname" => self.anon.mask_cname(x),
            _ => self.anon.mask_host(x),
        };
        self.note(kind, v, S(m))
    }
    fn port(&mut self, v: &V) -> V {
        let U(x) = v else { return v.clone() };
        let m = u(self.anon.mask_port(*x as u32));
        self.note("port", v, m)
    }
    fn ip(&mut self, v: &V) -> V {
        let S(x) = v else { return v.clone() };
        let m = S(self.anon.mask_ip(&x.parse().unwrap()).to_string());
        self.note("ip", v, m)
    }
    fn address(&mut self, v: &V) -> V {
        match v {
            T("Ip", k) => T("Ip", vec![self.ip(&k[0])]),
            T("Fqdn", k) => T("Fqdn", vec![self.string("host", &k[0])]),
            T("TIp", k) => T("TIp", vec![k[0].clone(), self.ip(&k[1])]),
            T("TFqdn", k) => T("TFqdn", vec![k[0].clone(), self.string("host", &k[1])]),
            T("Some", k) => T("Some", vec![self.address(&k[0])]),
            o => o.clone(),
        }
    }
    fn opt(&mut self, v: &V, f: impl Fn(&mut Self, &V) -> V) -> V {
        match v {
            T("Some", k) => T("Some", vec![f(self, &k[0])]),
            o => o.clone(),
        }
    }
    fn conn(&mut self, v: &V) -> V {
        match v {
            T("Some", k) => T("Some", vec![self.conn(&k[0])]),
            T("c", k) => T("c", vec![self.address(&k[0]), k[1].clone(), k[2].clone()]),
            o => o.clone(),
        }
    }
    fn origin(&mut self, v: &V) -> V {
        let T("o", k) = v else { return v.clone() };
        T("o", vec![self.string("user", &k[0]), k[1].clone(), k[2].clone(), self.address(&k[3])])
    }
    fn attr(&mut self, v: &V) -> V {
        let T(n, k) = v else { return v.clone() };
        let mut k = k.clone();
        match *n {
            "ice-pwd" => k[0] = self.string("pwd", &k[0]),
            "ice-ufrag" => k[0] = self.string("ufrag", &k[0]),
            "candidate" => {
                k[4] = self.address(&k[4]);
                k[5] = self.port(&k[5]);
                k[7] = self.address(&k[7]);
                k[8] = self.opt(&k[8], |m, x| m.port(x));
                k[11] = self.opt(&k[11], |m, x| m.string("ufrag", x));
            }
            "remote-candidates" => {
                k[1] = self.address(&k[1]);
                k[2] = self.port(&k[2]);
            }
            "rtcp" => k[1] = self.address(&k[1]),
            "fingerprint" => {
                let L(b) = &k[1] else { return v.clone() };
                let b: Vec<u8> = b.iter().map(|x| if let U(y) = x { *y as u8 } else { 0 }).collect();
                let m = self.anon.mask_cert_finger_print(&b);
                let o = k[1].clone();
                k[1] = self.note("fingerprint", &o, list(&m, |x| u(*x)));
            }
            "ssrc" => {
                if let T("Some", a) = &k[1] {
                    if matches!(&a[0], S(x) if x.eq_ignore_ascii_case("cname")) {
                        k[2] = self.opt(&k[2], |m, x| m.string("cname", x));
                    }
                }
            }
            _ => (),
        }
        T(n, k)
    }
    fn media(&mut self, m: &Med) -> Med {
        Med {
            line: m.line.clone(),
            connection: self.conn(&m.connection),
            bandwidth: m.bandwidth.clone(),
            attrs: m.attrs.iter().map(|a| self.attr(a)).collect(),
        }
    }
    pub fn sess(&mut self, x: &Sess) -> Sess {
        Sess {
            version: x.version.clone(),
            origin: self.origin(&x.origin),
            name: x.name.clone(),
            connection: self.conn(&x.connection),
            bandwidth: x.bandwidth.clone(),
            timing: x.timing.clone(),
            attrs: x.attrs.iter().map(|a| self.attr(a)).collect(),
            media: x.media.iter().map(|m| self.media(m)).collect(),
        }
    }
}

/// Lines with values to hide; the same values occur in several of them.
const HIDE: &[&str] = &[
    "a=candidate:0 1 UDP 5 10.0.0.1 9 typ host",
    "a=candidate:1 2 TCP 5 a.example 10 typ srflx raddr 10.0.0.2 rport 9 tcptype active generation 1 ufrag u network-cost 9 x 10.0.0.1",
    "a=candidate:2 1 UDP 5 ::1 11 typ relay raddr b.example rport 0",
    "a=candidate:2 1 UDP 5 0.0.0.1 1 typ prflx rport 65535 ufrag a.example",
    "a=remote-candidates:1 10.0.0.1 9",
    "a=remote-candidates:2 a.example 12",
    "a=rtcp:9 IN IP4 10.0.0.1",
    "a=rtcp:10 IN IP6 a.example",
    "a=rtcp:11",
    "a=ssrc:1 cname:u",
    "a=ssrc:2 CNAME:u2",
    "a=ssrc:3 cname",
    "a=ssrc:4 msid:u v",
    "a=ice-ufrag:u",
    "a=ice-ufrag:ice-user-00000001",
    "a=ice-pwd:u",
    "a=ice-pwd:passwordpassword",
    "a=fingerprint:sha-1 00:00:00:00:00:00:00:00:00:00:00:00:00:00:00:00:00:00:00:01",
    "a=fingerprint:sha-1 00:00:00:00:00:00:00:00:00:00:00:00:00:00:00:00:00:00:00:02",
    "b=AS:9",
    "a=mid:u",
    "a=ssrc-group:FID 1 2",
    "a=ice-options:u",
    "a=label:a.example",
];
/// Ports with a meaning of their own.
const SPECIAL_PORTS: &[&str] = &["0", "1", "9", "1023", "1024", "32768", "49152", "65535"];
const BOTH: &[&str] = &["a=ice-ufrag:v", "a=ice-pwd:u", "a=ice-pwd:w", "a=setup:active", "b=CT:4", "a=foo", "a=identity:u", "a=ice-lite"];

fn document(i: usize) -> String {
    let fp = fp(32, 7);
    match i {
        0 => format!("{PRE_T}c=IN IP4 10.0.0.1\r\n"),
        1 => format!("v=0\r\no=u 1 2 IN IP6 ::1\r\ns=u\r\nt=0 0\r\nc=IN IP6 a.example\r\na=ice-pwd:u\r\na=fingerprint:sha-256 {fp}\r\nm=audio 9 RTP/AVP 0\r\nc=IN IP6 ::2\r\na=ice-ufrag:u\r\na=candidate:0 1 UDP 5 ::1 9 typ host ufrag u\r\n"),
        2 => format!("{PRE_T}m=audio 9 RTP/AVP 0\r\nc=IN IP4 10.0.0.2\r\na=ssrc:1 cname:u\r\nm=video 10 RTP/AVP 96\r\nc=IN IP4 a.example/1/2\r\na=ssrc:1 cname:w\r\na=rtcp:9 IN IP4 10.0.0.1\r\n"),
        3 => format!("v=0\r\no=origin-user-00000001 1 2 IN IP4 0.0.0.1\r\ns=-\r\nt=0 0\r\nc=IN IP4 0.0.0.2\r\na=fingerprint:sha-256 {fp}\r\nm=video 10 RTP/AVP 96\r\na=remote-candidates:1 fqdn-00000001 1\r\na=remote-candidates:1 fqdn-00000002 2\r\n"),
        4 => format!("{PRE_T}c=IN IP4 A.example\r\nm=text 9 x 0\r\na=ice-pwd:zz\r\nm=video 9 RTP/AVP 96\r\na=ice-pwd:ice-password-00000001\r\na=bogus\r\na=ssrc:1 Cname:cname-00000001\r\n"),
        5 => format!("{PRE_T}c=IN IP4 10.0.0.1\r\n{}", (0..12).map(|i| format!("m=audio {i} RTP/AVP 0\r\nc=IN IP4 10.0.0.{i}\r\na=candidate:0 1 UDP 5 10.0.1.{i} {i} typ host ufrag u{i}\r\n")).collect::<String>()),
        6 => format!("v=0\r\no=u 1 2 IN IP4 a.example\r\ns=-\r\nt=0 0\r\nm=video 9 RTP/AVP 96\r\nc=IN IP6 a.example\r\na=candidate:0 1 UDP 5 a.example 9 typ host raddr a.example rport 9\r\n"),
        _ => format!("v=0\r\no=u 1 2 IN IP4 10.0.0.1\r\ns=-\r\nt=0 0\r\nc=IN IP4 10.0.0.1/7\r\na=ice-ufrag:u\r\na=ice-ufrag:u\r\nm=video 9 RTP/AVP 96\r\na=ice-ufrag:u\r\na=ice-ufrag:v\r\n"),
    }
}
const DOCS: usize = 8;

impl Check for Masked {
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "all sequences of up to 4 (thorough 5) lines with values to hide in one media section, the same at session level, all placements of pairs over \
         two sections and the session, every sample attribute pair, all sequences of up to 4 (5) of 11 sections, list lengths of sections and attributes, all sequences of up to 5 (6) of \
         8 documents through one anonymizer; the copy must equal the model tree with exactly the listed leaves replaced by what the anonymizer gives"
    }
    fn must_see(&self) -> Vec<&'static str> {
        vec!["masked", "refused"]
    }
    fn explore(&self, e: &Engine) {
        let d = e.pick3(3, 4, 5);
        let k = HIDE.len();
        e.sweep("docs", "sequences of lines in a media section", seq_count(k, d), |i| {
            let mut t = format!("{PRE_T}{MLINE}c=IN IP4 10.0.0.1\r\n");
            for x in seq_at(k, i) {
                t.push_str(HIDE[x]);
                t.push_str("\r\n");
            }
            t
        });
        let (kb, db) = (BOTH.len(), e.pick3(4, 6, 7));
        e.sweep("docs", "sequences of lines at session level", seq_count(kb, db), |i| {
            let mut t = format!("{PRE_T}c=IN IP6 a.example\r\n");
            for x in seq_at(kb, i) {
                t.push_str(BOTH[x]);
                t.push_str("\r\n");
            }
            t + MLINE + "a=ice-ufrag:v\r\n"
        });
        let mut all: Vec<String> = HIDE.iter().chain(BOTH).map(|x| x.to_string()).collect();
        all.extend(samples().iter().map(|x| format!("a={x}")));
        let n = all.len();
        e.sweep("docs", "pairs of lines over all levels and sections", n * n * 9, |i| {
            let (a, b, p, q) = (&all[i / 9 / n], &all[i / 9 % n], i % 9 / 3, i % 3);
            let mut sec = [format!("{PRE_T}c=IN IP4 10.0.0.1\r\n"), MLINE.to_string(), format!("{MLINE}c=IN IP6 b.example\r\n")];
            let strip = |x: &str| x.strip_prefix("a=").unwrap_or("x").to_string();
            for (place, x) in [(p, a), (q, b)] {
                sec[place].push_str(&format!("{x}\r\n"));
                if place > 0 {
                    sec[place].push_str(&rid_helpers(&[&strip(x)]).iter().map(|x| format!("a={x}\r\n")).collect::<String>());
                }
            }
            sec.concat()
        });
        // origins and connections
        let t = tm(&[
            &["v=0\r\no="],
            &["-", "u", "origin-user-00000001", "é", "10.0.0.1"],
            &[" 18446744073709551615 0 IN "],
            &["IP4 10.0.0.1", "IP6 ::1", "IP4 a.example", "IP6 A.example", "IP4 0.0.0.1", "IP6 ::"],
            &["\r\ns=u\r\nt=1 2\r\n"],
            &["c=IN IP4 10.0.0.1\r\n", "", "c=IN IP6 ::1/3\r\n", "c=IN IP4 a.example/3/4\r\n", "c=IN IP4 1.1.1.1\r\nc=IN IP4 2.2.2.2\r\n"],
            &["", "b=X:9\r\n"],
            &["m=audio 9 RTP/AVP 0\r\n", "", "m=text 9 RTP/AVP 0\r\n", "m=audio 10/2 RTP/AVP 9\r\n"],
            &["", "c=IN IP4 10.0.0.1\r\n", "c=IN IP6 a.example/7/8\r\n", "c=IN IP6 ::2\r\n"],
            &["", "m=application 0 DTLS/SCTP a.example\r\nc=IN IP4 10.0.0.2\r\n", "m=video 1 RTP/AVP 96\r\nc=IN IP6 a.example\r\n"],
        ]);
        let p = t.picks(10);
        e.sweep("docs", "origins, connections and sections: full product", p.len(), |i| t.join(&p[i], ""));
        // every special value at every place
        let mut l = vec![];
        let hosts: Vec<String> = HOSTS.iter().map(|x| x.to_string()).chain(special_addresses()).collect();
        let base = format!("{PRE_T}c=IN IP4 10.0.0.1\r\n{MLINE}");
        for h in &hosts {
            for net in ["IP4", "IP6"] {
                for u in ["-", "u", "0", "root", "anonymous"] {
                    l.push(format!("v=0\r\no={u} 1 2 IN {net} {h}\r\ns=-\r\nt=0 0\r\nc=IN {net} {h}\r\n{MLINE}"));
                }
                for ttl in ["", "/0", "/1", "/255", "/127/0", "/0/1", "/3/2"] {
                    l.push(format!("{PRE_T}c=IN {net} {h}{ttl}\r\n{MLINE}"));
                    for m in ["m=audio 0 RTP/AVP 0\r\n", MLINE, MLINE2] {
                        l.push(format!("{PRE_T}{m}c=IN {net} {h}{ttl}\r\n"));
                        l.push(format!("{PRE_T}c=IN {net} {h}\r\n{m}c=IN {net} {h}{ttl}\r\na=inactive\r\n"));
                        l.push(format!("{PRE_T}{m}c=IN {net} 9.9.9.9\r\n{m}c=IN {net} {h}{ttl}\r\n"));
                    }
                }
                for p in ["0", "9", "65535"] {
                    l.push(format!("{base}a=rtcp:{p} IN {net} {h}\r\n"));
                }
            }
            for ty in ["host", "srflx", "prflx", "relay"] {
                for p in SPECIAL_PORTS {
                    for tcp in ["", " tcptype active", " tcptype passive", " tcptype so"] {
                        let tr = if tcp.is_empty() { "UDP" } else { "TCP" };
                        for (r, q) in [("", ""), (h.as_str(), p), (h.as_str(), ""), ("", p), ("10.0.0.1", "5"), ("0.0.0.0", "0")] {
                            let r = if r.is_empty() { String::new() } else { format!(" raddr {r}") };
                            let q = if q.is_empty() { String::new() } else { format!(" rport {q}") };
                            l.push(format!("{base}a=candidate:0 1 {tr} 1 {h} {p} typ {ty}{r}{q}{tcp}\r\n"));
                            if *p == "9" {
                                l.push(format!("{base}a=candidate:0 2 {tr} 1 10.0.0.1 {p} typ {ty}{r}{q}{tcp} ufrag - generation 0\r\n"));
                            }
                        }
                    }
                }
            }
            for p in SPECIAL_PORTS {
                for c in ["1", "2", "0", "4294967295"] {
                    l.push(format!("{base}a=remote-candidates:{c} {h} {p}\r\n"));
                }
            }
        }
        for u in ["-", "u", "0", "a b", "é", "ice-user-00000000", "xxxx", "0123456789012345678901234567890123456789", "+/", ":", "=", "user@host", "{00000000-0000-0000-0000-000000000000}"] {
            if !u.contains(' ') {
                l.push(format!("v=0\r\no={u} 1 2 IN IP4 1.1.1.1\r\ns=-\r\nt=0 0\r\nc=IN IP4 1.1.1.1\r\n{MLINE}"));
                l.push(format!("{base}a=candidate:0 1 UDP 1 1.1.1.1 9 typ host ufrag {u}\r\n"));
            }
            for at in ["ice-ufrag:", "ice-pwd:", "ssrc:1 cname:", "ssrc:0 CNAME:", "ssrc:4294967295 cName:", "ssrc:1 msid:", "ssrc:1 label:", "ssrc:1 mslabel:", "mid:", "msid:", "label:", "ice-options:", "identity:"] {
                l.push(format!("{base}a={at}{u}\r\n"));
                l.push(format!("{PRE_T}c=IN IP4 1.1.1.1\r\na={at}{u}\r\n{MLINE}"));
            }
        }
        for (h, n) in [("sha-1", 20), ("sha-224", 28), ("sha-256", 32), ("sha-384", 48), ("sha-512", 64)] {
            for b in [0u8, 1, 0x7f, 0x80, 0xff] {
                for x in [0u8, 1, 0x80, 0xff] {
                    for at in [0, n - 1, n / 2] {
                        let v: Vec<String> = (0..n).map(|i| format!("{:02X}", if i == at { x } else { b })).collect();
                        l.push(format!("{base}a=fingerprint:{h} {}\r\n", v.join(":")));
                        l.push(format!("{PRE_T}c=IN IP4 1.1.1.1\r\na=fingerprint:{h} {}\r\n{MLINE}", v.join(":")));
                    }
                }
            }
        }
        e.list("docs", "special values at every place", l);
        let cx = super::ctx::contexts(e.thorough());
        let k = HIDE.len();
        e.sweep("docs", "every line with values to hide in every context", cx.len() * k * super::ctx::ARRS * 2, |i| {
            let (b, a, x, c) = (i % 2, i / 2 % super::ctx::ARRS, i / 2 / super::ctx::ARRS % k, &cx[i / 2 / super::ctx::ARRS / k]);
            c.doc(super::ctx::USUAL + 9, a, "", &format!("{}\r\n", HIDE[x]), b == 1)
        });
        // sections like and unlike the ones before
        let secs: Vec<String> = ["c=IN IP4 9.8.7.6\r\n", "c=IN IP6 a.example/3\r\n", "c=IN IP4 9.8.7.6\r\na=ice-pwd:u\r\n", "c=IN IP4 9.8.7.7\r\na=mid:0\r\n", "c=IN IP4 9.8.7.6\r\na=candidate:0 1 UDP 1 9.8.7.6 9 typ host\r\n"]
            .iter()
            .flat_map(|c| [format!("m=audio 9 RTP/AVP 0\r\n{c}"), format!("m=application 0 DTLS/SCTP x\r\n{c}")])
            .chain(["m=text 9 RTP/AVP 0\r\nc=IN IP4 9.8.7.6\r\n".to_string()])
            .collect();
        let (k, d) = (secs.len(), e.pick3(4, 4, 5));
        e.sweep("docs", "sequences of sections, equal ones too", seq_count(k, d) * 2, |i| {
            let t: String = seq_at(k, i / 2).into_iter().map(|x| secs[x].as_str()).collect();
            format!("{PRE_T}{}{t}", if i % 2 == 0 { "" } else { "c=IN IP4 9.8.7.6\r\n" })
        });
        let ds = e.pick3(4, 5, 6);
        e.sweep("docs", "sequences of documents through one anonymizer", seq_count(DOCS, ds), |i| {
            seq_at(DOCS, i).into_iter().map(document).collect::<Vec<_>>().join(&SEP.to_string())
        });
        let mut l = vec![];
        for n in lens(e).into_iter().filter(|n| *n <= 1100) {
            let c: String = (0..n).map(|i| format!("a=candidate:{i} 1 UDP 5 10.{}.{}.1 {} typ host ufrag u{i}\r\n", i / 256, i % 256, i % 65536)).collect();
            l.push(format!("{PRE_T}{MLINE}c=IN IP4 9.9.9.9\r\n{c}"));
            l.push(format!(
                "{PRE_T}{}",
                (0..n).map(|i| format!("m=audio 9 RTP/AVP 0\r\nc=IN IP4 10.{}.{}.1\r\na=ice-pwd:p{i}\r\na=mid:{i}\r\n", i / 256, i % 256)).collect::<String>()
            ));
            l.push(format!("{PRE_T}c=IN IP4 9.9.9.9\r\n{}", (0..n).map(|i| format!("a=ice-pwd:p{i}\r\na=ice-ufrag:p{}\r\n", i / 2)).collect::<String>()));
            l.push(format!("{PRE_T}c=IN IP4 9.9.9.9\r\n{MLINE}{}", (0..n).map(|i| format!("a=ssrc:{i} cname:c{}\r\n", i / 3)).collect::<String>()));
        }
        e.list("docs", "list lengths", l);
        // each attribute on its own
        let one = one_per_name();
        e.list("docs", "each attribute alone", one.iter().map(|a| format!("{PRE_T}{MLINE}c=IN IP4 9.9.9.9\r\na={a}\r\n")).collect());
    }
    fn decide(&self, _: &str, payload: &str) -> Verdict {
        let mut anon = Anon::new();
        let mut again = Anon::new();
        let mut any = false;
        let mut pending: Vec<(webrtc_sdp::SdpSession, Sess, Sess)> = vec![];
        for d in payload.split(SEP) {
            let Ok(s) = parse_sdp(d, false) else { continue };
            any = true;
            let before = proj::sess(&s);
            let text = s.to_string();
            trans(4);
            let m = s.masked_clone(&mut anon);
            let got = proj::sess(&m);
            if proj::sess(&s) != before || s.to_string() != text {
                return Err(format!("masking changes the original: {}", diff(&before, &proj::sess(&s))));
            }
            let r = proj::sess(&s.masked_clone(&mut again));
            if r != got {
                return Err(format!("an anonymizer with the same history masks differently: {}", diff(&got, &r)));
            }
            state(&got);
            trace();
            pending.push((s, before, got));
        }
        // what the anonymizer gives for each value, in every session it has masked
        let mut model = Mask::new(&mut anon);
        for (_, before, got) in &pending {
            let want = model.sess(before);
            if want != *got {
                return Err(format!("masked: {}", diff(&want, got)));
            }
        }
        if let Some(c) = &model.clash {
            return Err(c.clone());
        }
        // masking the parts, and everything again in the other order
        for (s, before, got) in pending.iter().rev() {
            let r = proj::sess(&s.masked_clone(&mut again));
            if r != *got {
                return Err(format!("masked again: {}", diff(got, &r)));
            }
            if proj::origin(&s.origin.masked_clone(&mut again)) != got.origin {
                return Err("the origin alone is masked in another way".into());
            }
            if let Some(c) = &s.connection {
                if some(proj::conn(&c.masked_clone(&mut again))) != got.connection {
                    return Err("the connection alone is masked in another way".into());
                }
            }
            for (i, a) in s.attribute.iter().enumerate() {
                if proj::attr(&a.masked_clone(&mut again)) != got.attrs[i] {
                    return Err(format!("attribute {a} alone is masked in another way"));
                }
            }
            for (i, a) in s.media.iter().enumerate() {
                if proj::media(&a.masked_clone(&mut again)) != got.media[i] {
                    return Err(format!("media section {i} alone is masked in another way"));
                }
            }
            trans(4);
            if proj::sess(s) != *before {
                return Err("masking changes the original".into());
            }
        }
        Ok(if any { "masked" } else { "refused" })
    }
}
