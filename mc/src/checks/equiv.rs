//! C09: transformations of the text that must not change the result.
use super::docs::one_per_name;
use super::text::LINE_SAMPLES;
use super::*;
use crate::alpha::*;
use std::ops::Range;

pub struct Equiv;
pub static C09: Equiv = Equiv;

const SEP: char = '\u{1e}';
const WS: &[&str] = &[" ", "\t", "  ", " \t ", "\t\t"];
/// Every white space character that does not end a line. (A carriage return is part of the line end
/// only at the end of a line; white space elsewhere.)
const WIDE: &[&str] = &[
    "\u{b}", "\u{c}", "\r", "\u{85}", "\u{a0}", "\u{1680}", "\u{2000}", "\u{2001}", "\u{2002}", "\u{2003}", "\u{2004}",
    "\u{2005}", "\u{2006}", "\u{2007}", "\u{2008}", "\u{2009}", "\u{200a}", "\u{2028}", "\u{2029}", "\u{202f}", "\u{205f}",
    "\u{3000}", " \u{a0}", "\u{c}\t", "\r ",
];
const BLANK: &[&str] = &["", " ", "\t", " \t  "];

fn tokens(t: &str, from: usize) -> Vec<Range<usize>> {
    let mut v = vec![];
    let mut st = None;
    for (i, c) in t.char_indices().filter(|x| x.0 >= from).chain([(t.len(), ' ')]) {
        match (c.is_whitespace(), st) {
            (false, None) => st = Some(i),
            (true, Some(a)) => {
                v.push(a..i);
                st = None;
            }
            _ => (),
        }
    }
    v
}
/// The parts of a line that are compared without case.
fn keywords(l: &str) -> Vec<Range<usize>> {
    let mut v = vec![0..1];
    let mut add = |r: Option<&Range<usize>>| {
        if let Some(r) = r {
            v.push(r.clone());
        }
    };
    let tk = tokens(l, 2);
    match l.as_bytes()[0] {
        b'o' => {
            add(tk.get(3));
            add(tk.get(4));
        }
        b'c' => {
            add(tk.first());
            add(tk.get(1));
        }
        b'b' => {
            let n = l.find(':').unwrap_or(2);
            if ["AS", "CT", "TIAS"].contains(&&l[2..n.max(2)]) {
                add(Some(&(2..n)));
            }
        }
        b'm' => {
            add(tk.first());
            add(tk.get(2));
        }
        b'a' => {
            let colon = l.find(':').unwrap_or(l.len());
            add(Some(&(2..colon)));
            let from = (colon + 1).min(l.len());
            let tk = tokens(l, from);
            match &l[2..colon] {
                "candidate" => {
                    for i in [2, 6, 7] {
                        add(tk.get(i));
                    }
                    for (i, r) in tk.iter().enumerate().skip(8) {
                        let known = ["raddr", "rport", "tcptype", "generation", "ufrag", "network-cost"];
                        if i % 2 == 0 && known.contains(&&l[r.clone()]) {
                            add(Some(r));
                            if &l[r.clone()] == "tcptype" {
                                add(tk.get(i + 1));
                            }
                        }
                    }
                }
                "rtcp" => {
                    add(tk.get(1));
                    add(tk.get(2));
                }
                "setup" | "group" | "ssrc-group" => add(tk.first()),
                "sctpmap" => add(tk.get(1)),
                "extmap" => {
                    if let Some(r) = tk.first() {
                        if let Some(s) = l[r.clone()].find('/') {
                            add(Some(&(r.start + s + 1..r.end)));
                        }
                    }
                }
                "fmtp" => {
                    if let Some(r) = tk.get(1) {
                        let mut at = r.start;
                        for p in l[r.clone()].split(';') {
                            if let Some(q) = p.find('=') {
                                let n = p[..q].to_ascii_lowercase();
                                if refparse::FMTP_INTS.iter().any(|x| x.0 == n) || refparse::FMTP_BOOLS.iter().any(|x| x.0 == n) {
                                    add(Some(&(at..at + q)));
                                }
                            }
                            at += p.len() + 1;
                        }
                    }
                }
                _ => (),
            }
        }
        _ => (),
    }
    v.retain(|r| !r.is_empty());
    v
}
fn flip(l: &str, r: &Range<usize>, f: impl Fn(usize, char) -> char) -> String {
    let mid: String = l[r.clone()].chars().enumerate().map(|(i, c)| f(i, c)).collect();
    format!("{}{mid}{}", &l[..r.start], &l[r.end..])
}
fn toggle(c: char) -> char {
    if c.is_ascii_lowercase() {
        c.to_ascii_uppercase()
    } else {
        c.to_ascii_lowercase()
    }
}
fn case_variants(l: &str, all: bool) -> Vec<String> {
    let mut v = vec![];
    let ks = keywords(l);
    for r in &ks {
        let n = r.len();
        if n <= if all { 12 } else { 6 } {
            for m in 1..1usize << n {
                v.push(flip(l, r, |i, c| if m >> i & 1 == 1 { toggle(c) } else { c }));
            }
        } else {
            v.push(flip(l, r, |_, c| c.to_ascii_uppercase()));
            v.push(flip(l, r, |_, c| toggle(c)));
            for k in 0..n {
                v.push(flip(l, r, |i, c| if i == k { toggle(c) } else { c }));
                v.push(flip(l, r, |i, c| if i >= k { toggle(c) } else { c }));
            }
        }
    }
    // all of them at once
    for f in [|_: usize, c: char| c.to_ascii_uppercase(), |_, c| toggle(c), |i, c| if i % 2 == 0 { toggle(c) } else { c }] {
        let mut x = l.to_string();
        for r in &ks {
            x = flip(&x, r, f);
        }
        v.push(x);
    }
    v.sort();
    v.dedup();
    v.retain(|x| x != l);
    v
}
/// Where white space may be added.
fn places(l: &str) -> Vec<usize> {
    let mut v = vec![0, 1, 2];
    if l.starts_with('a') {
        if let Some(i) = l.find(':') {
            v.push(i + 1);
        }
    }
    v.push(l.len());
    v.dedup();
    v
}
fn pad(l: &str, at: &[(usize, &str)]) -> String {
    let mut x = l.to_string();
    let mut a: Vec<_> = at.to_vec();
    a.sort();
    for (i, w) in a.into_iter().rev() {
        x.insert_str(i, w);
    }
    x
}
fn pad_variants(l: &str) -> Vec<String> {
    let p = places(l);
    let mut v = vec![];
    for i in &p {
        for w in WS.iter().chain(WIDE) {
            v.push(pad(l, &[(*i, w)]));
        }
    }
    for m in 1..1usize << p.len() {
        for w in [" ", "\t", " \t"] {
            let at: Vec<_> = p.iter().enumerate().filter(|x| m >> x.0 & 1 == 1).map(|x| (*x.1, w)).collect();
            v.push(pad(l, &at));
        }
    }
    v
}
/// Both at once.
fn both_variants(l: &str) -> Vec<String> {
    let mut v = vec![];
    for c in [l.to_string()].iter().chain(case_variants(l, false).iter().rev().take(3)) {
        for m in 1..1usize << places(l).len() {
            let at: Vec<_> =
                places(l).into_iter().enumerate().filter(|x| m >> x.0 & 1 == 1).map(|x| (x.1, " ")).collect();
            v.push(pad(c, &at));
        }
    }
    v
}

fn docs() -> Vec<Vec<String>> {
    let d: &[&str] = &[
        "v=0\no=- 1 2 IN IP4 127.0.0.1\ns=-\nt=0 0\nc=IN IP4 10.9.9.9",
        "v=0\no=u 1 2 IN IP6 ::1\ns= a name \nc=IN IP4 1.2.3.4/5\nt=1 2\na=ice-lite\nm=audio 9 RTP/AVP 0\na=mid:0",
        "v=0\no=- 1 2 IN IP4 127.0.0.1\ns=\nt=0 0\nb=AS:5\nm=video 9 UDP/TLS/RTP/SAVPF 96\nc=IN IP6 ::\na=foo:bar\na=rid:a send pt=96\na=simulcast:send a",
        "v=0\no=- 1 2 IN IP4 127.0.0.1\ns=-\nt=0 0\nm=text 9 RTP/AVP 0\na=mid:1\nm=application 9 UDP/DTLS/SCTP x\nc=IN IP4 1.1.1.1\na=sctp-port:5000",
        "v=0\no=- 1 2 IN IP4 127.0.0.1\ns=-\nt=0 0\na=mid:1",
        "v=0\no=- 1 2 IN IP4 127.0.0.1\ns=-\nt=0 0\nq=1\na=ice-lite",
        "v=0\ns=-\no=- 1 2 IN IP4 127.0.0.1\nt=0 0",
        "v=0\no=- 1 2 IN IP4 127.0.0.1\ns=-\nm=audio 9 RTP/AVP 0\nc=IN IP4 1.1.1.1",
        "v=0\no=- 1 2 IN IP4 127.0.0.1\ns=-\nt=0 0\nc=IN IP4 1.1.1.1\na=extmap:1 u\nm=audio 9 RTP/AVP 0\na=extmap:1/sendonly u",
        "v=0\no=- 1 2 IN IP4 127.0.0.1\ns=-\nt=0 0\nm=audio 9 RTP/AVP 0\nc=IN IP4 1.1.1.1\na=fmtp:0 MAX-FS=1;X=2\na=fingerprint:md5 00\na=rtcp-mux-only\na=rtcp-mux",
        "v=0",
        "v=0\no=- 1 2 IN IP4 127.0.0.1\ns=-\nt=0 0\nc=IN IP4 1.1.1.1\nm=video 0 TCP/DTLS/RTP/SAVP 100 101\nb=TIAS:9\na=candidate:0 1 TCP 1 1.2.3.4 9 typ host tcptype so generation 0\na=group:FID 1",
    ];
    d.iter().map(|x| x.split('\n').map(str::to_string).collect()).collect()
}
const BAD: &[&str] = &[
    "a=ptime:x",
    "a=candidate:0 1 SCTP 1 1.2.3.4 9 typ host",
    "a=candidate:0 1 UDP 1 1.2.3.4 9 typ foo",
    "a=group:XX 1",
    "a=setup:both",
    "a=mid",
    "a=ice-lite:1",
    "a=extmap:1/up u",
    "a=sctpmap:5 x 1",
    "a=unknown:x",
    "a=rtcp:9 IN IP5 1.2.3.4",
    "a=rtcp:9 TN IP4 1.2.3.4",
    "b=AS:x",
    "c=IN IP4 ::1",
    "m=text 9 RTP/AVP 0",
    "m=audio 9 XX 0",
    "m=audio 9 RTP/AVP x",
    "t=1",
    "v=1",
    "o=- 1 2 IN IP4",
    "z=1",
];

impl Check for Equiv {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> &'static str {
        "every sample line: every case mask of every keyword (single and suffix flips for long ones), white space at every subset of the places \
         where it does not matter, both at once; 12 documents: every LF/CRLF assignment, every subset of places for blank lines, blank lines of every string of up to 4 white space characters, every pair of \
         (line, variant) choices and every transformation of all lines; original and transformed text must give the same verdict and session \
         in both modes"
    }
    fn must_see(&self) -> Vec<&'static str> {
        vec!["accepted", "accepted-with-warnings", "sequence-error", "line-error", "line", "line-refused"]
    }
    fn explore(&self, e: &Engine) {
        let lines: Vec<String> = samples()
            .iter()
            .map(|a| format!("a={a}"))
            .chain(LINE_SAMPLES.iter().map(|x| x.to_string()))
            .chain(BAD.iter().map(|x| x.to_string()))
            .collect();
        let mut l = vec![];
        let mut d = vec![];
        let two = |orig: &str, new: &str, out: &mut Vec<String>| out.push(format!("{orig}{SEP}{new}"));
        for x in &lines {
            let mut vs = case_variants(x, e.thorough());
            vs.extend(pad_variants(x));
            vs.extend(both_variants(x));
            let help = match x.strip_prefix("a=") {
                Some(a) => rid_helpers(&[a]).iter().map(|y| format!("a={y}\r\n")).collect::<String>(),
                None => String::new(),
            };
            for v in vs {
                two(x, &v, &mut l);
                match x.as_bytes()[0] {
                    b'a' => {
                        two(
                            &format!("{HEAD}{x}\r\n{MLINE}a=mid:0\r\n"),
                            &format!("{HEAD}{v}\r\n{MLINE}a=mid:0\r\n"),
                            &mut d,
                        );
                        two(&format!("{HEAD}{MLINE}{x}\r\n{help}"), &format!("{HEAD}{MLINE}{v}\r\n{help}"), &mut d);
                    }
                    b'v' => two(&format!("{x}\r\n{}", &HEAD[5..]), &format!("{v}\r\n{}", &HEAD[5..]), &mut d),
                    b'o' => {
                        let r = "\r\ns=-\r\nt=0 0\r\nc=IN IP4 0.0.0.0\r\n";
                        two(&format!("v=0\r\n{x}{r}"), &format!("v=0\r\n{v}{r}"), &mut d)
                    }
                    b's' => {
                        let (p, r) = ("v=0\r\no=- 1 2 IN IP4 1.1.1.1\r\n", "\r\nt=0 0\r\nc=IN IP4 0.0.0.0\r\n");
                        two(&format!("{p}{x}{r}"), &format!("{p}{v}{r}"), &mut d)
                    }
                    _ => two(&format!("{HEAD}{x}\r\n"), &format!("{HEAD}{v}\r\n"), &mut d),
                }
            }
        }
        e.list("line", "variants of single lines", l);
        e.list("doc", "variants of single lines within a document", d);

        for (k, doc) in docs().into_iter().enumerate() {
            let n = doc.len();
            let orig = doc.join("\r\n") + "\r\n";
            e.sweep("doc", &format!("document {k}: all LF/CRLF assignments, with and without final line end"), 3 << n, |i| {
                let (m, f) = (i / 3, i % 3);
                let mut t = String::new();
                for (j, l) in doc.iter().enumerate() {
                    t.push_str(l);
                    if j + 1 < n || f == 0 {
                        t.push_str(if m >> j & 1 == 1 { "\n" } else { "\r\n" });
                    } else if f == 2 {
                        t.push_str("\r\n \t");
                    }
                }
                format!("{orig}{SEP}{t}")
            });
            e.sweep("doc", &format!("document {k}: blank lines at every subset of places"), (1 << (n + 1)) * BLANK.len() * 2, |i| {
                let (m, b, nl) = (i / BLANK.len() / 2, BLANK[i / 2 % BLANK.len()], if i % 2 == 0 { "\r\n" } else { "\n" });
                let mut t = String::new();
                for j in 0..=n {
                    if m >> j & 1 == 1 {
                        t.push_str(b);
                        t.push_str(nl);
                    }
                    if let Some(l) = doc.get(j) {
                        t.push_str(l);
                        t.push_str(nl);
                    }
                }
                format!("{orig}{SEP}{t}")
            });
            e.sweep("doc", &format!("document {k}: blank lines of every white space at every place"), (n + 2) * WIDE.len() * 2, |i| {
                let (m, b, nl) = (i / WIDE.len() / 2, WIDE[i / 2 % WIDE.len()], if i % 2 == 0 { "\r\n" } else { "\n" });
                let mut t = String::new();
                for j in 0..=n {
                    if m == j || m == n + 1 {
                        t.push_str(b);
                        t.push_str(nl);
                    }
                    if let Some(l) = doc.get(j) {
                        t.push_str(l);
                        t.push_str(nl);
                    }
                }
                format!("{orig}{SEP}{t}")
            });
            let bl = ["", " ", "\t", "\r", "\u{a0}", "\u{c}"];
            let (bk, bs) = (seq_count(bl.len() - 1, e.pick(4, 5)), [0, 3, 5, n / 2, n]);
            e.sweep("doc", &format!("document {k}: blank lines of every short string of white space"), bk * bs.len() * 2, |i| {
                let (b, m, nl) = (seq_at(bl.len() - 1, i / 10), bs[i / 2 % 5], if i % 2 == 0 { "\r\n" } else { "\n" });
                let mut t = String::new();
                for j in 0..=n {
                    if j == m.min(n) {
                        t.extend(b.iter().map(|x| bl[x + 1]));
                        t.push_str(nl);
                    }
                    if let Some(l) = doc.get(j) {
                        t.push_str(l);
                        t.push_str(nl);
                    }
                }
                format!("{orig}{SEP}{t}")
            });
            let vars: Vec<(usize, String)> = doc
                .iter()
                .enumerate()
                .flat_map(|(j, l)| {
                    let mut v = case_variants(l, false);
                    let p = pad_variants(l);
                    let keep = if e.thorough() { p.len() } else { 12 };
                    v.truncate(if e.thorough() { 60 } else { 10 });
                    v.extend(p.into_iter().rev().take(keep));
                    v.into_iter().map(move |x| (j, x))
                })
                .collect();
            let nv = vars.len();
            e.sweep("doc", &format!("document {k}: every pair of line variants"), nv * nv, |i| {
                let (a, b) = (&vars[i / nv], &vars[i % nv]);
                let mut t = doc.clone();
                t[a.0] = a.1.clone();
                t[b.0] = b.1.clone();
                format!("{orig}{SEP}{}\n", t.join("\r\n"))
            });
            // all lines at once
            let mut l = vec![];
            for c in 0..4 {
                for m in 0..1usize << 5 {
                    for w in WS {
                        for nl in ["\r\n", "\n", "\r\n\r\n", "\n \n"] {
                            let t: Vec<String> = doc
                                .iter()
                                .map(|x| {
                                    let cs = case_variants(x, false);
                                    let y = match c {
                                        0 => x.clone(),
                                        c => cs[cs.len() * (c - 1) / 3].clone(),
                                    };
                                    let at: Vec<_> = places(x)
                                        .into_iter()
                                        .enumerate()
                                        .filter(|z| m >> z.0 & 1 == 1)
                                        .map(|z| (z.1, *w))
                                        .collect();
                                    pad(&y, &at)
                                })
                                .collect();
                            l.push(format!("{orig}{SEP}{}{nl}", t.join(nl)));
                        }
                    }
                }
            }
            e.list("doc", &format!("document {k}: the same transformation of all lines"), l);
        }
        // one attribute of each kind with every kind of line end and padding of the whole document
        let one = one_per_name();
        let n = one.len();
        e.sweep("doc", "pairs of attributes, padded and with other line ends", n * n * 4, |i| {
            let (a, b, k) = (&one[i / 4 / n], &one[i / 4 % n], i % 4);
            let help: String = rid_helpers(&[a, b]).iter().map(|y| format!("a={y}\r\n")).collect();
            let o = format!("{HEAD}{MLINE}a={a}\r\na={b}\r\n{help}");
            let t = match k {
                0 => o.replace("\r\n", "\n"),
                1 => o.replace("\r\n", " \r\n\t\r\n"),
                2 => o.replace("a=", " A\t= "),
                _ => o.replace("\r\na=", "\n\n a =\t").trim_end().to_string(),
            };
            format!("{o}{SEP}{t}")
        });
    }
    fn decide(&self, kind: &str, payload: &str) -> Verdict {
        let (a, b) = payload.split_once(SEP).ok_or("bad case")?;
        if kind == "line" {
            trans(2);
            let (x, y) = (proj::parse_line(a), proj::parse_line(b));
            state(&x);
            trace();
            // the name of a session is trimmed when the session is built
            let trim = |l: Result<V, Cls>| match l {
                Ok(T("s=", k)) => Ok(T("s=", k.iter().map(|n| if let S(n) = n { s(n.trim()) } else { No }).collect())),
                o => o,
            };
            let (x, y) = (trim(x), trim(y));
            if x != y {
                return Err(format!("{a:?} gives {x:?}, {b:?} gives {y:?}"));
            }
            // the attribute parser on its own
            if let (Some(p), Some(q)) = (a.strip_prefix("a="), b.strip_prefix("a=")) {
                if !q.starts_with(char::is_whitespace) && !q.ends_with(char::is_whitespace) {
                    trans(2);
                    let (x, y) = (proj::parse_attr(p), proj::parse_attr(q));
                    if x != y {
                        return Err(format!("{p:?} gives {x:?}, {q:?} gives {y:?}"));
                    }
                }
            }
            return Ok(if x.is_ok() { "line" } else { "line-refused" });
        }
        let mut label = "";
        for strict in [false, true] {
            trans(2);
            let (x, y) = (proj::parse(a, strict), proj::parse(b, strict));
            state(&out_key(&x));
            trace();
            let same = match (&x, &y) {
                (Out::Ok(s, w), Out::Ok(t, v)) => s == t && w.len() == v.len(),
                (Out::Line(_), Out::Line(_)) | (Out::Unsup(_), Out::Unsup(_)) | (Out::Seq(_), Out::Seq(_)) => true,
                _ => false,
            };
            if !same {
                return Err(format!(
                    "{}: {} changes to {}{}",
                    if strict { "strict" } else { "lenient" },
                    refparse::short(&x),
                    refparse::short(&y),
                    match (x.sess(), y.sess()) {
                        (Some(s), Some(t)) => format!(": {}", diff(s, t)),
                        _ => String::new(),
                    }
                ));
            }
            if label.is_empty() {
                label = x.label();
            }
        }
        Ok(label)
    }
}
