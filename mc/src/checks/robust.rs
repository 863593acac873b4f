//! C01: nothing makes the library panic, overflow, abort or hang.
use super::text::{edit2_sweep, edit_sweep, LINE_SAMPLES};
use super::*;
use crate::alpha::*;
use webrtc_sdp::anonymizer::{AnonymizingClone, StatefulSdpAnonymizer};
use webrtc_sdp::attribute_type::SdpAttribute;
use webrtc_sdp::media_type::{parse_media_vector, SdpMedia};
use webrtc_sdp::{parse_sdp, parse_sdp_line, SdpSession, SdpType};

pub struct Robust;
pub static C01: Robust = Robust;

const SIGMA: &[&str] = &[" ", ":", ";", ",", "=", "/", "-", "[", "]", "*", "~", "1", "a", ".", "é", "\t"];
/// Tokens that lead deep into the parsers of the attributes.
const TOKENS: &[&str] = &[
    " ", "1", "x", "=", ";", ",", "-", "[", "]", "x=", "y=", "sar=", "par=", "q=", "*", "send", "recv", "rid=", "pt=", "depends=", "é", "[x=1,y=2",
    "IN IP4 ", "1.2.3.4", "/", "typ", "host", "fmtp", ":", "~", "apt=", "0-15", "99999999999999999999999", "\u{feff}", "日本", "client",
];

fn head() -> String {
    format!("{HEAD}{MLINE}")
}

impl Check for Robust {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> &'static str {
        "every string up to a length over a sharp alphabet (separators, brackets, digits, multi-byte characters) as \
         the value of every attribute name and line type and as a whole document, every token sequence over the keywords, all single edits and \
         cuts of all samples and of a full document, very long values and many lines; each one is parsed in every way, and \
         what is accepted is printed, debug-printed, cloned and masked, in a build with overflow checks"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["a case that takes more than 40 s of processor time, or 240 s without using it, is a hang", "worker threads have the 2 MiB of stack that a Rust thread has by default"]
    }
    fn must_see(&self) -> Vec<&'static str> {
        vec!["value", "error"]
    }
    fn explore(&self, e: &Engine) {
        let k = SIGMA.len();
        let names: Vec<&str> =
            refparse::VALUED.iter().chain(&refparse::FLAGS[..1]).chain(&["x"]).copied().collect();
        let d = e.pick(4, 5);
        let m = seq_count(k, d);
        e.sweep("attr", "every attribute name with every short string", names.len() * m, |i| {
            let s: String = seq_at(k, i % m).into_iter().map(|x| SIGMA[x]).collect();
            format!("{}:{s}", names[i / m])
        });
        let tk = TOKENS.len();
        let m = seq_count(tk, e.pick(3, 4));
        e.sweep("attr", "every attribute name with every token sequence", names.len() * m, |i| {
            let s: String = seq_at(tk, i % m).into_iter().map(|x| TOKENS[x]).collect();
            format!("{}:{s}", names[i / m])
        });
        // a valid beginning followed by every short string
        let begins = [
            "imageattr:9 send [x=", "imageattr:9 send [x=1,y=2", "imageattr:9 send [x=1,y=[", "imageattr:9 send [x=1,y=2] ", "imageattr:9 send [x=1,y=2,sar=",
            "imageattr:9 send [x=1,y=2,par=", "imageattr:9 ", "rid:a send ", "rid:a send pt=", "simulcast:send ", "simulcast:send a recv ",
            "fmtp:96 ", "fmtp:96 a=", "fmtp:101 0-", "fmtp:9 1/", "candidate:1 1 UDP 5 1.2.3.4 9 typ host ", "candidate:1 1 UDP 5 ",
            "rtcp:9 IN IP4 ", "rtcp:9 IN IP6 ", "extmap:1/", "extmap:1 u ", "ssrc:1 ", "ssrc-group:FID 1", "rtcp-fb:1 ", "rtcp-fb:* nack ", "rtpmap:1 a",
            "fingerprint:sha-1 ", "fingerprint:sha-1 00:", "dtls-message:client ", "remote-candidates:1 ", "sctpmap:1 ", "group:FID ", "framerate:1",
        ];
        let m = seq_count(k, e.pick(4, 5));
        e.sweep("attr", "valid beginnings with every short string", begins.len() * m, |i| {
            let s: String = seq_at(k, i % m).into_iter().map(|x| SIGMA[x]).collect();
            format!("{}{s}", begins[i / m])
        });
        let lb = [
            "a=", "b=", "b=AS", "c=", "c=IN IP4 ", "c=IN IP6 ", "c=IN IP4 1.2.3.4", "m=", "m=audio ", "m=audio 9", "m=audio 9 RTP/AVP ", "m=application 9 DTLS/SCTP ", "o=", "o=- 1 2 IN IP4 ",
            "s=", "t=", "t=1", "v=", "é=", "", "=", "x",
        ];
        e.sweep("line", "line beginnings with every short string", lb.len() * m, |i| {
            let s: String = seq_at(k, i % m).into_iter().map(|x| SIGMA[x]).collect();
            format!("{}{s}", lb[i / m])
        });
        let raw = ["\n", "\r", "=", "v", "m", "a", " ", "0", ":", "é", "\u{0}", "s", "\u{2028}"];
        let dd = e.pick(5, 6);
        e.sweep("doc", "every short document", seq_count(raw.len(), dd), |i| {
            seq_at(raw.len(), i).into_iter().map(|x| raw[x]).collect()
        });
        let sm = samples();
        edit_sweep(e, "attr", "all single edits of attribute samples", &sm);
        let ls: Vec<String> = LINE_SAMPLES.iter().map(|x| x.to_string()).collect();
        edit_sweep(e, "line", "all single edits of line samples", &ls);
        let mut cuts = vec![];
        for a in &sm {
            let c: Vec<char> = a.chars().collect();
            for i in 0..=c.len() {
                let p: String = c[..i].iter().collect();
                let q: String = c[i..].iter().collect();
                cuts.push(p.clone());
                for x in ["é", "日", "\u{feff}", "😀", "\u{301}", "ß", "İ", "ſ", "K", "\u{0}", "\u{a0}", "\u{85}"] {
                    cuts.push(format!("{p}{x}{q}"));
                }
            }
        }
        e.list("attr", "all cuts of samples, and with every kind of odd character inserted", cuts);
        if e.thorough() {
            let mut short: Vec<String> = sm.iter().filter(|x| x.len() <= 30).cloned().collect();
            short.sort_by_key(String::len);
            let mut n = 0;
            short.retain(|x| {
                n += text::edit_count(x).pow(2);
                n < 80_000_000
            });
            edit2_sweep(e, "attr", "all pairs of edits of the short samples", &short);
        }
        // one accepted document with everything, cut, edited and with lines moved
        let full: String = {
            let mut t = format!("{HEAD}b=AS:1\r\na=group:BUNDLE 0\r\na=ice-lite\r\na=msid-semantic:WMS *\r\n{MLINE}");
            for a in one_of_each() {
                t.push_str(&format!("a={a}\r\n"));
            }
            t
        };
        let n = full.len();
        e.sweep("doc", "all cuts of a full document", n + 1, |i| full[..i].to_string());
        let fl: Vec<&str> = full.lines().collect();
        let nl = fl.len();
        e.sweep("doc", "all pairs of lines of a full document left out or swapped", nl * nl * 2, |i| {
            let (a, b) = (i / 2 % nl, i / 2 / nl);
            let mut v = fl.clone();
            if i % 2 == 0 {
                v.swap(a, b);
            } else {
                v.remove(a);
                if b < v.len() {
                    v.remove(b);
                }
            }
            v.join("\r\n")
        });
        edit_sweep(e, "doc", "all single edits of a full document", &[full.clone()]);
        e.list("doc", "every sample in a section", sm.iter().map(|a| format!("{}a={a}\r\n{}", head(), rid_helpers(&[a]).iter().map(|x| format!("a={x}\r\n")).collect::<String>())).collect());
        // every two numbers of a line at a limit, and all of them, in a document
        let big = [
            "0", "1", "15", "16", "255", "256", "32767", "32768", "46341", "65535", "65536", "70000", "2097152", "16777216", "2147483647", "2147483648", "3037000500", "4294967295",
            "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616",
        ];
        let mut l = vec![];
        let rich = [
            "rid:a send pt=96;max-width=1;max-height=1;max-fps=1;max-fs=1;max-br=1;max-pps=1",
            "rid:a recv max-width=1;max-height=1;max-fps=1;max-fs=1;max-br=1;max-pps=1;k=1",
            "imageattr:96 send [x=1,y=1,sar=1,par=1-1,q=1] [x=[1:1:1],y=[1:1],sar=[1-1]]",
            "fmtp:96 max-fs=1;max-cpb=1;max-dpb=1;max-br=1;max-mbps=1;max-fr=1;maxplaybackrate=1;maxaveragebitrate=1;ptime=1;minptime=1;maxptime=1",
            "fmtp:96 profile-level-id=1;packetization-mode=1;level-asymmetry-allowed=1;profile=1;level-idx=1;tier=1;apt=1;rtx-time=1",
            "candidate:1 1 UDP 1 1.2.3.4 1 typ host raddr 1.2.3.4 rport 1 generation 1 network-cost 1",
        ];
        for a in rich.iter().map(|x| x.to_string()).chain(sm.iter().cloned()) {
            let b = a.as_bytes();
            let from = a.find(':').unwrap_or(0);
            let runs: Vec<(usize, usize)> = (from..b.len())
                .filter(|i| b[*i].is_ascii_digit() && !b[*i - 1].is_ascii_digit())
                .map(|i| (i, i + b[i..].iter().take_while(|c| c.is_ascii_digit()).count()))
                .collect();
            let put = |v: &[(usize, &str)]| -> String {
                let mut t = a.clone();
                for (r, x) in v.iter().rev() {
                    t.replace_range(runs[*r].0..runs[*r].1, x);
                }
                t
            };
            for x in big {
                l.push(put(&(0..runs.len()).map(|r| (r, x)).collect::<Vec<_>>()));
            }
            if runs.len() > 16 {
                continue;
            }
            for r in 0..runs.len() {
                for q in r + 1..runs.len() {
                    for x in big {
                        for y in big {
                            l.push(put(&[(r, x), (q, y)]));
                        }
                    }
                }
            }
        }
        e.list("attr", "every two numbers of an attribute at a limit, and all of them", l.clone());
        let fm = "m=video 9 RTP/AVP 96 0 15 16\r\n";
        e.sweep("doc", "every two numbers of an attribute at a limit, and all of them, in a document", l.len() * 2, |i| {
            let h: String = rid_helpers(&[&l[i / 2]]).iter().map(|x| format!("a={x}\r\n")).collect();
            format!("{HEAD}{}a={}\r\n{h}", if i % 2 == 0 { fm } else { "m=application 9 DTLS/SCTP 96 0 65535 65536 4294967295\r\n" }, l[i / 2])
        });
        let mut l = vec![];
        for x in big {
            for y in big {
                for t in ["v=0\r\no=- % & IN IP4 1.2.3.4\r\ns=-\r\nt=0 0\r\nc=IN IP4 1.2.3.4", "t=% &", "c=IN IP4 224.1.1.1/%/&", "c=IN IP6 ff02::1/%/&", "m=audio %/& RTP/AVP 0", "m=audio 9 RTP/AVP % &", "b=AS:%\r\nb=CT:&", "m=application 9/& DTLS/SCTP %"] {
                    let t = t.replace('%', x).replace('&', y);
                    l.push(if t.starts_with('v') { t } else { format!("{HEAD}{t}\r\n") });
                }
            }
        }
        e.list("doc", "every two numbers of a line at a limit", l);
        // long
        let mut l = vec![];
        for n in [1000usize, 10_000, 100_000] {
            for x in ["[", "]", ",", ";", ":", "=", "/", "-", " ", "~", "1", "é", "a=b;", "1,", "[x=1,y=2] ", "0:", "00:", "k v "] {
                let r = x.repeat(n);
                for nm in &names {
                    l.push(format!("{nm}:{r}"));
                }
                for b in begins {
                    l.push(format!("{b}{r}"));
                }
            }
        }
        if !e.thorough() {
            l.retain(|x| x.len() < 200_000);
        }
        // every two characters again and again
        for x in SIGMA {
            for y in SIGMA.iter().filter(|y| *y != x) {
                let r = format!("{x}{y}").repeat(e.pick(10_000, 40_000));
                for b in names.iter().map(|n| format!("{n}:")).chain(begins.iter().map(|b| b.to_string())) {
                    l.push(format!("{b}{r}"));
                }
            }
        }
        e.list("attr", "long values", l);
        let mut l = vec![];
        for n in [100usize, 1000, e.pick(2000, 6000)] {
            for x in [
                "a=sendrecv\r\n", "m=audio 9 RTP/AVP 0\r\n", "m=text 9 x 0\r\n", "a=foo\r\n", "\r\n", "b=AS:1\r\n", "a=setup:x\r\n", "c=IN IP4 1.2.3.4\r\n", "t=0 0\r\n", "\r",
                "m=audio 9 RTP/AVP 0\r\na=rid:a send\r\na=simulcast:send a\r\n", "a=rid:a send pt=96\r\n", "a=fmtp:96 x=1\r\n",
            ] {
                l.push(format!("{HEAD}{}", x.repeat(n)));
                l.push(format!("{HEAD}{MLINE}{}", x.repeat(n)));
                l.push(x.repeat(n));
            }
            l.push(format!("{HEAD}m=audio 9 RTP/AVP{}\r\n", " 96".repeat(n)));
            l.push(format!("{HEAD}s={}\r\n", "s".repeat(n * 100)));
        }
        e.list("doc", "many lines", l);
        e.list("empty", "entry points without lines", vec!["".into()]);
    }
    fn decide(&self, kind: &str, x: &str) -> Verdict {
        match kind {
            "empty" => {
                trans(2);
                let r = parse_media_vector(&mut vec![]);
                if let Ok(v) = &r {
                    if !v.is_empty() {
                        return Err("media sections out of nothing".into());
                    }
                }
                let mut s = docs::base_session();
                s.parse_session_vector(&mut vec![]).map_err(|e| format!("no session lines: {e}"))?;
                Ok("value")
            }
            "attr" => {
                let r = x.parse::<SdpAttribute>();
                trans(1);
                Ok(match r {
                    Ok(a) => {
                        let t = a.to_string();
                        let b = a.clone();
                        let c = b.masked_clone(&mut StatefulSdpAnonymizer::new());
                        state(&(t.len(), c.to_string().len()));
                        #[cfg(feature = "dbg")]
                        let _ = (format!("{a:?}"), format!("{c:?}"));
                        line_ops(&format!("a={x}"));
                        "value"
                    }
                    Err(e) => {
                        let t = e.to_string();
                        let _ = format!("{e:?}");
                        state(&t.len());
                        line_ops(&format!("a={x}"));
                        "error"
                    }
                })
            }
            "line" => Ok(if line_ops(x) { "value" } else { "error" }),
            _ => {
                line_ops(x);
                let mut ok = false;
                for strict in [true, false] {
                    trans(1);
                    match parse_sdp(x, strict) {
                        Ok(s) => {
                            ok = true;
                            session_ops(&s);
                        }
                        Err(e) => {
                            let t = e.to_string();
                            let _ = format!("{e:?}");
                            state(&t.len());
                        }
                    }
                }
                vector_ops(x);
                Ok(if ok { "value" } else { "error" })
            }
        }
    }
}
pub fn one_of_each() -> Vec<String> {
    let mut v: Vec<String> = docs::one_per_name()
        .into_iter()
        .filter(|a| !refparse::SESSION_ONLY.contains(&attr_name(a).as_str()))
        .collect();
    v.extend(["rid:foo send", "rid:hi send", "rid:4 send"].iter().map(|x| x.to_string()));
    v
}
fn session_ops(s: &SdpSession) {
    let t = s.to_string();
    #[cfg(feature = "dbg")]
    let _ = format!("{s:?}");
    let c = s.clone();
    let m = c.masked_clone(&mut StatefulSdpAnonymizer::new());
    state(&(t.len(), m.to_string().len()));
    let _ = parse_sdp(&m.to_string(), true);
    for w in &s.warnings {
        let _ = (w.to_string(), format!("{w:?}"));
    }
}
fn line_ops(x: &str) -> bool {
    trans(1);
    match parse_sdp_line(x, usize::MAX) {
        Ok(l) => {
            #[cfg(feature = "dbg")]
            let _ = format!("{l:?}");
            match &l.sdp_type {
                SdpType::Attribute(a) => drop(a.to_string()),
                SdpType::Bandwidth(a) => drop(a.to_string()),
                SdpType::Connection(a) => drop(a.to_string()),
                SdpType::Media(a) => {
                    drop(a.to_string());
                    let mut m = SdpMedia::new(a.clone());
                    m.remove_codecs();
                    drop(m.to_string());
                }
                SdpType::Origin(a) => drop(a.to_string()),
                SdpType::Timing(a) => drop(a.to_string()),
                _ => {}
            }
            true
        }
        Err(e) => {
            let _ = (e.to_string(), format!("{e:?}"));
            false
        }
    }
}
/// The vector entry points, fed with the lines of the text whatever they are.
fn vector_ops(x: &str) {
    let lines = || x.lines().enumerate().filter_map(|(n, l)| parse_sdp_line(l, n).ok()).collect::<Vec<_>>();
    trans(2);
    let _ = parse_media_vector(&mut lines()).map(|v| v.iter().map(|m| m.to_string().len()).sum::<usize>());
    let mut s = docs::base_session();
    let _ = s.parse_session_vector(&mut lines());
    drop(s.to_string());
}
