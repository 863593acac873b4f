//! C02: print and parse again.
use super::text::{all_text, depth_for, edit_sweep, Space, LINE_SAMPLES};
use super::*;
use crate::alpha::*;
use webrtc_sdp::attribute_type::SdpAttribute;
use webrtc_sdp::parse_sdp;

pub struct Round;
pub static C02: Round = Round;

/// Is this the one value that prints as nothing?
pub fn prints_nothing(v: &V) -> bool {
    matches!(v, T("fmtp", k) if k[1] == T("params", refparse::fmtp_default()))
}
pub fn without_default_fmtp(mut x: Sess) -> Sess {
    x.attrs.retain(|a| !prints_nothing(a));
    for m in &mut x.media {
        m.attrs.retain(|a| !prints_nothing(a));
    }
    x
}

impl Check for Round {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> &'static str {
        "every attribute text of the spaces of C12-C16 and every single edit of every sample, alone; every ordered pair of samples within a \
         document, at both levels; the products of all session and media line variants; each accepted value is printed, parsed strictly and \
         compared field by field, and printed again"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["fields are read through public fields and getters"]
    }
    fn must_see(&self) -> Vec<&'static str> {
        vec!["same", "refused", "prints-nothing"]
    }
    fn explore(&self, e: &Engine) {
        let sm = samples();
        for c in all_text() {
            let kind = if c.kind() == "attr" { "attr" } else { "oneline" };
            for sp in c.spaces(e) {
                match sp {
                    Space::Tm(what, t, sep) => {
                        let d = depth_for(&t, e.pick3(150_000, 2_000_000, 12_000_000));
                        let p = t.picks(d);
                        e.sweep(kind, &format!("{what}: at most {d} slots away from the default"), p.len(), |i| {
                            t.join(&p[i], sep)
                        });
                    }
                    Space::List(what, mut l) => {
                        if !e.thorough() && l.len() > 150_000 {
                            l.truncate(150_000);
                        }
                        e.list(kind, what, l)
                    }
                    Space::Fn(what, n, f) => e.sweep(kind, what, n.min(e.pick3(250_000, 4_000_000, 30_000_000)), f),
                }
            }
        }
        edit_sweep(e, "attr", "all single edits of the samples", &sm);
        let ls: Vec<String> = LINE_SAMPLES.iter().map(|x| x.to_string()).collect();
        edit_sweep(e, "oneline", "all single edits of the line samples", &ls);
        let n = sm.len();
        e.sweep("doc", "all ordered pairs of attribute samples at each level", n * n * 3, |i| {
            let (a, b, l) = (&sm[i / 3 % n], &sm[i / 3 / n], i % 3);
            let help = rid_helpers(&[a, b]).iter().map(|x| format!("a={x}\r\n")).collect::<String>();
            match l {
                0 => format!("{HEAD}a={a}\r\na={b}\r\n{MLINE}a=mid:0\r\n"),
                1 => format!("{HEAD}{MLINE}a={a}\r\na={b}\r\n{help}"),
                _ => format!("{HEAD}{MLINE2}a={a}\r\n{help}{MLINE}a={b}\r\n{help}"),
            }
        });
        // session part variants
        let t = tm(&[
            &["v=0\r\n"],
            &["o=- 1 2 IN IP4 127.0.0.1\r\n", "o=u 18446744073709551615 0 IN IP6 ::1\r\n", "o=- 0 18446744073709551615 IN IP4 h.example\r\n", "o=é 1 1 IN IP6 H.example\r\n"],
            &["s=-\r\n", "s=\r\n", "s= \r\n", "s=a b\r\n", "s=  padded  \r\n", "s==:;\r\n", "s=é\r\n"],
            &["t=0 0\r\n", "t=18446744073709551615 5\r\n", "t=1 2\r\nt=3 4\r\n"],
            &["c=IN IP4 1.2.3.4\r\n", DROP, "c=IN IP4 1.2.3.4/5\r\n", "c=IN IP4 1.2.3.4/5/6\r\n", "c=IN IP6 ::1\r\n", "c=IN IP6 h.x/0/0\r\n", "c=IN IP4 1.1.1.1\r\nc=IN IP4 2.2.2.2\r\n"],
            &[DROP, "b=AS:1\r\n", "b=CT:0\r\nb=TIAS:4294967295\r\n", "b=X:5\r\nb=as:6\r\nb=AS:6\r\n", "b=:7\r\n", "b=a b:8\r\n"],
            &[DROP, "a=ice-lite\r\n", "a=group:BUNDLE 0 1\r\na=msid-semantic:WMS\r\n", "a=foo\r\n", "a=dtls-message:client x\r\n", "a=identity:x y\r\n"],
            &[DROP, "m=audio 9 RTP/AVP 0\r\n", "m=application 0/3 UDP/DTLS/SCTP webrtc-datachannel\r\n", "m=text 9 x 0\r\na=mid:1\r\n", "m=video 65535/0 TCP/DTLS/RTP/SAVPF 96 127\r\n"],
            &[DROP, "c=IN IP4 9.9.9.9/1\r\n", "b=AS:7\r\nc=IN IP6 ff::\r\n", "b=TIAS:9\r\n"],
            &[DROP, "a=mid:0\r\na=sendrecv\r\n", "a=fmtp:96 max-fs=0\r\n", "a=fmtp:96 x=1\r\na=fmtp:97 0-15\r\n"],
        ]);
        let d = e.pick(4, 10);
        let p = t.picks(d);
        e.sweep("doc", &format!("session and media line variants, at most {d} away"), p.len(), |i| t.join(&p[i], ""));
        let mut l = vec![];
        for n in lens(e).into_iter().filter(|n| *n <= 1100) {
            let at: String = (0..n).map(|i| format!("a=fmtp:{} x={i}\r\n", i % 256)).collect();
            let de: String = (0..n).map(|i| format!("a=fmtp:{} {}={i}\r\n", i % 256, if i % 2 == 0 { "max-fs" } else { "y" })).collect();
            let bw: String = (0..n).map(|i| format!("b=X{i}:{i}\r\n")).collect();
            let me: String = (0..n).map(|i| format!("m=audio {} RTP/AVP 0\r\na=mid:{i}\r\nb=AS:{i}\r\n", i % 65536)).collect();
            l.push(format!("{HEAD}{bw}{MLINE}{at}{bw}"));
            l.push(format!("{HEAD}{MLINE}{de}{bw}"));
            l.push(format!("{HEAD}{me}"));
            l.push(format!("{HEAD}{MLINE}{}{MLINE2}a=mid:1\r\n", "a=fmtp:96 max-fs=0\r\n".repeat(n)));
        }
        e.list("doc", "list lengths", l);
    }
    fn decide(&self, kind: &str, x: &str) -> Verdict {
        trans(1);
        match kind {
            "attr" => {
                let Ok(a) = x.parse::<SdpAttribute>() else { return Ok("refused") };
                if let SdpAttribute::Simulcast(y) = &a {
                    // no rid can have an empty id, so no accepted session can hold this
                    if y.send.iter().chain(&y.receive).any(|v| v.ids.iter().any(|i| i.id.trim().is_empty())) {
                        return Ok("simulcast-of-empty-id");
                    }
                }
                attr_round(&a)
            }
            "oneline" => {
                let Ok(v) = proj::parse_line(x) else { return Ok("refused") };
                let d = match x.trim_start().chars().next() {
                    Some('v' | 'V') => format!("{x}\r\n{}", &HEAD[5..]),
                    Some('o' | 'O') => format!("v=0\r\n{x}\r\ns=-\r\nt=0 0\r\nc=IN IP4 0.0.0.0\r\n"),
                    Some('s' | 'S') => format!("v=0\r\no=- 1 2 IN IP4 127.0.0.1\r\n{x}\r\nt=0 0\r\n"),
                    _ => format!("{HEAD}{x}\r\n"),
                };
                let _ = v;
                doc_round(&d)
            }
            _ => doc_round(x),
        }
    }
}
/// Prints an attribute and reads it again.
pub fn attr_round(a: &SdpAttribute) -> Verdict {
    let v = proj::attr(a);
    let t = a.to_string();
    state(&v);
    trace();
    if t.is_empty() {
        return if prints_nothing(&v) { Ok("prints-nothing") } else { Err(format!("{v:?} prints as nothing")) };
    }
    if t.contains(['\r', '\n']) {
        return Err(format!("{v:?} prints as {t:?}"));
    }
    for back in [t.clone(), format!("a={t}")] {
        trans(1);
        let r = if back.starts_with("a=") {
            proj::parse_line(&back).map(|l| match l {
                T("a=", mut k) => k.remove(0),
                o => o,
            })
        } else {
            proj::parse_attr(&back)
        };
        if r != Ok(v.clone()) {
            return Err(format!("{v:?} prints as {t:?}, which reads as {r:?}"));
        }
    }
    match t.parse::<SdpAttribute>() {
        Ok(b) if b.to_string() == t => Ok("same"),
        Ok(b) => Err(format!("{t:?} is printed as {:?} after reading it", b.to_string())),
        Err(e) => Err(format!("{t:?}: {e}")),
    }
}
pub fn doc_round(x: &str) -> Verdict {
    let Ok(s) = parse_sdp(x, false) else { return Ok("refused") };
    let a = proj::sess(&s);
    state(&a);
    trace();
    let t = s.to_string();
    trans(2);
    if t.lines().any(|l| l.len() < 2 || l.trim_end() == "a=") {
        return Err(format!("printed with an empty line: {t:?}"));
    }
    let r = match parse_sdp(&t, true) {
        Ok(r) => r,
        Err(e) => return Err(format!("printed as {t:?}, which is refused: {e}")),
    };
    let l = parse_sdp(&t, false).map_err(|e| format!("lenient: {e}"))?;
    let b = proj::sess(&r);
    let want = without_default_fmtp(a);
    if want != b {
        return Err(format!("printed as {t:?}, which reads differently: {}", diff(&want, &b)));
    }
    if b != proj::sess(&l) || !l.warnings.is_empty() || !r.warnings.is_empty() {
        return Err(format!("printed as {t:?}, which gives warnings or differs in lenient mode"));
    }
    let t2 = r.to_string();
    if t2 != t {
        return Err(format!("first printed as {t:?}, then as {t2:?}"));
    }
    Ok("same")
}
