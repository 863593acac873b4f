//! C10-C16: what a line says is what is stored, decided against the reference semantics.
use super::*;
use crate::alpha::*;

pub enum Space {
    /// Attribute or line texts from a template.
    Tm(&'static str, Tm, &'static str),
    List(&'static str, Vec<String>),
    /// The texts of the indices `0..n`.
    Fn(&'static str, usize, Box<dyn Fn(usize) -> String + Sync>),
}

pub struct TextCheck {
    id: &'static str,
    /// Attribute names whose samples are edited.
    names: &'static [&'static str],
    /// "attr" or "line"
    kind: &'static str,
    spaces: fn(&Engine) -> Vec<Space>,
}

pub static C10: TextCheck = TextCheck { id: "C10", names: &[], kind: "line", spaces: c10 };
pub static C11: TextCheck = TextCheck { id: "C11", names: &[], kind: "line", spaces: c11 };
pub static C12: TextCheck = TextCheck {
    id: "C12",
    names: &[
        "candidate",
        "remote-candidates",
        "rtcp",
        "ice-ufrag",
        "ice-pwd",
        "ice-options",
        "ice-pacing",
        "fingerprint",
        "setup",
        "dtls-message",
        "sctpmap",
        "sctp-port",
        "max-message-size",
        "identity",
    ],
    kind: "attr",
    spaces: c12,
};
pub static C13: TextCheck = TextCheck {
    id: "C13",
    names: &["rtpmap", "rtcp-fb", "extmap", "ptime", "maxptime", "framerate"],
    kind: "attr",
    spaces: c13,
};
pub static C14: TextCheck = TextCheck { id: "C14", names: &["fmtp"], kind: "attr", spaces: c14 };
pub static C15: TextCheck =
    TextCheck { id: "C15", names: &["rid", "simulcast", "imageattr"], kind: "attr", spaces: c15 };
pub static C16: TextCheck = TextCheck {
    id: "C16",
    names: &[
        "group",
        "mid",
        "msid",
        "msid-semantic",
        "label",
        "ssrc",
        "ssrc-group",
        "bundle-only",
        "end-of-candidates",
        "extmap-allow-mixed",
        "ice-lite",
        "ice-mismatch",
        "inactive",
        "recvonly",
        "rtcp-mux",
        "rtcp-mux-only",
        "rtcp-rsize",
        "sendonly",
        "sendrecv",
    ],
    kind: "attr",
    spaces: c16,
};

pub fn all_text() -> Vec<&'static TextCheck> {
    vec![&C10, &C11, &C12, &C13, &C14, &C15, &C16]
}
impl TextCheck {
    pub fn kind(&self) -> &'static str {
        self.kind
    }
    pub fn spaces(&self, e: &Engine) -> Vec<Space> {
        let mut v = (self.spaces)(e);
        v.push(dictionary(&self.samples()));
        v
    }
    pub fn samples(&self) -> Vec<String> {
        if self.names.is_empty() {
            return LINE_SAMPLES
                .iter()
                .filter(|l| (self.id == "C11") == l.starts_with('m'))
                .map(|l| l.to_string())
                .collect();
        }
        samples().into_iter().filter(|a| self.names.contains(&attr_name(a).as_str())).collect()
    }
}

pub const LINE_SAMPLES: &[&str] = &[
    "v=0",
    "o=- 0 0 IN IP4 0.0.0.0",
    "o=mozilla 506705521068071134 18446744073709551615 IN IP6 ::1",
    "o=u 1 2 IN IP4 host.example",
    "s=-",
    "s= name of it ",
    "s=",
    "t=0 0",
    "t=18446744073709551615 1",
    "c=IN IP4 224.0.0.1/100/3",
    "c=IN IP6 ::1",
    "c=IN IP4 h.example/255",
    "b=AS:4294967295",
    "b=TIAS:0",
    "b=CT:12",
    "b=X-y:7",
    "m=audio 9 UDP/TLS/RTP/SAVPF 109 9 0 8",
    "m=video 65535/4294967295 RTP/AVP 96 127",
    "m=application 0/2 UDP/DTLS/SCTP webrtc-datachannel",
    "m=application 9 DTLS/SCTP 5000 6000",
];

pub const SHARP: &[&str] = &[
    " ", ":", ";", ",", "=", "/", "-", "[", "]", "*", "~", "0", "9", "a", "Z", ".", "\t", "_", "é", "\u{2028}",
    "\u{0}", "f",
];

/// Every token of every text replaced by every word of the dictionary, in three cases, and every
/// suffix added to every token.
fn dictionary(texts: &[String]) -> Space {
    let words: Vec<String> = words();
    let mut spots = vec![];
    for t in texts {
        let mut r = vec![];
        for seps in [" ", " :", " :;,=/", " :;,=/[]~-."] {
            let mut from = 0;
            for (i, c) in t.char_indices().chain([(t.len(), ' ')]) {
                if seps.contains(c) {
                    if i > from && i - from < 60 {
                        r.push(from..i);
                    }
                    from = i + c.len_utf8();
                }
            }
        }
        r.sort_by_key(|r| (r.start, r.end));
        r.dedup();
        spots.extend(r.into_iter().map(|r| (t.clone(), r)));
    }
    let (w, x) = (words.len(), SUFFIXES.len());
    Space::Fn("every token replaced by every word of the dictionary, every token with a suffix", spots.len() * (w + x), Box::new(move |i| {
        let ((t, r), k) = (&spots[i / (w + x)], i % (w + x));
        if k < w {
            format!("{}{}{}", &t[..r.start], words[k], &t[r.end..])
        } else {
            format!("{}{}{}", &t[..r.end], SUFFIXES[k - w], &t[r.end..])
        }
    }))
}

/// Number of single edits of a text, and the i-th of them.
pub fn edit_count(t: &str) -> usize {
    let n = t.chars().count();
    n + (n + 1) * SHARP.len() + n * SHARP.len()
}
pub fn edit_at(t: &str, i: usize) -> String {
    let c: Vec<char> = t.chars().collect();
    let n = c.len();
    let st = |x: &[char]| x.iter().collect::<String>();
    if i < n {
        return st(&c[..i]) + &st(&c[i + 1..]);
    }
    let i = i - n;
    if i < (n + 1) * SHARP.len() {
        let (p, k) = (i / SHARP.len(), i % SHARP.len());
        return st(&c[..p]) + SHARP[k] + &st(&c[p..]);
    }
    let i = i - (n + 1) * SHARP.len();
    let (p, k) = (i / SHARP.len(), i % SHARP.len());
    st(&c[..p]) + SHARP[k] + &st(&c[p + 1..])
}
/// Sweeps all single edits of all texts (after `skip` leading bytes).
pub fn edit_sweep(e: &Engine, kind: &str, descr: &str, texts: &[String]) {
    let mut starts = vec![];
    let mut n = 0;
    for t in texts {
        starts.push(n);
        n += edit_count(t);
    }
    e.sweep(kind, descr, n, |i| {
        let k = starts.partition_point(|s| *s <= i) - 1;
        edit_at(&texts[k], i - starts[k])
    });
}
/// The same for all pairs of edits (the second one at any place of the edited text).
pub fn edit2_sweep(e: &Engine, kind: &str, descr: &str, texts: &[String]) {
    let mut starts = vec![];
    let mut n = 0;
    for t in texts {
        for i in 0..edit_count(t) {
            let x = edit_at(t, i);
            starts.push((n, x.clone()));
            n += edit_count(&x);
        }
    }
    e.sweep(kind, descr, n, |i| {
        let k = starts.partition_point(|s| s.0 <= i) - 1;
        edit_at(&starts[k].1, i - starts[k].0)
    });
}

impl Check for TextCheck {
    fn id(&self) -> &'static str {
        self.id
    }
    fn rule(&self) -> &'static str {
        "every text of a template with at most d slots away from their default, every list length of a \
         boundary table, every single character edit (delete, insert, replace) of every sample, every token of \
         every sample replaced by every word of a dictionary of registered names; each text \
         is read by the crate and by the reference semantics and the values are compared field by field"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "the reference semantics (mc/src/refparse.rs) states the supported syntax",
            "host names are classified by the url crate, which is trusted",
        ]
    }
    fn must_see(&self) -> Vec<&'static str> {
        match self.id {
            "C10" | "C15" => vec!["read", "refused"],
            _ => vec!["read", "refused", "unsupported"],
        }
    }
    fn explore(&self, e: &Engine) {
        for sp in self.spaces(e) {
            match sp {
                Space::Tm(what, t, sep) => {
                    let d = depth_for(&t, e.pick3(2_000_000, 12_000_000, 60_000_000));
                    let p = t.picks(d);
                    e.sweep(
                        self.kind,
                        &format!("{what}: {} slots, at most {d} away from the default", t.slots.len()),
                        p.len(),
                        |i| t.join(&p[i], sep),
                    );
                }
                Space::List(what, l) => e.list(self.kind, what, l),
                Space::Fn(what, n, f) => e.sweep(self.kind, what, n, f),
            }
        }
        if self.id == "C12" {
            e.list("remote-list", "lists of remote candidates", strs(REMOTE_LISTS));
        }
        let s = self.samples();
        e.list(self.kind, "samples", s.clone());
        edit_sweep(e, self.kind, "all single edits of the samples", &s);
        {
            let mut short: Vec<String> = s.iter().filter(|x| x.len() <= 34).cloned().collect();
            short.sort_by_key(|x| x.len());
            let mut n = 0;
            short.retain(|x| {
                n += edit_count(x) * edit_count(x);
                n < e.pick3(6_000_000, 60_000_000, 300_000_000)
            });
            edit2_sweep(e, self.kind, "all pairs of edits of the short samples", &short);
        }
    }
    fn decide(&self, kind: &str, payload: &str) -> Verdict {
        match kind {
            "attr" => match attr_verdict(payload)? {
                "read" => in_document(&format!("a={payload}")),
                l => Ok(l),
            },
            "remote-list" => remote_list(payload),
            _ => match line_verdict(payload)? {
                "read" => in_document(payload),
                l => Ok(l),
            },
        }
    }
}

/// The session that a document with this line gives.
fn in_document(line: &str) -> Verdict {
    let (t, v) = line.split_once('=').unwrap_or(("", ""));
    let (o, n, tc) = ("o=- 1 2 IN IP4 127.0.0.1\r\n", "s=-\r\n", "t=0 0\r\nc=IN IP4 0.0.0.0\r\n");
    let d = match t.trim() {
        "v" | "V" => format!("{line}\r\n{o}{n}{tc}"),
        "o" | "O" => format!("v=0\r\n{line}\r\n{n}{tc}"),
        "s" | "S" => format!("v=0\r\n{o}{line}\r\n{tc}"),
        "t" | "T" | "c" | "C" => format!("v=0\r\n{o}{n}{tc}{line}\r\n"),
        "a" | "A" if !refparse::SESSION_ONLY.contains(&attr_name(v.trim()).as_str()) => {
            format!("v=0\r\n{o}{n}{tc}{MLINE}{line}\r\n")
        }
        _ => format!("v=0\r\n{o}{n}{tc}{line}\r\n"),
    };
    let want = refparse::doc(&d, false);
    let got = proj::parse(&d, false);
    trans(1);
    state(&out_key(&got));
    refparse::agrees(&want, &got).map_err(|e| format!("in a document: {e}"))?;
    Ok("read")
}

/// The largest number of deviations (at most 4) that keeps the space below `cap`.
pub fn depth_for(t: &Tm, cap: usize) -> usize {
    // e[k] = number of choices with exactly k deviations
    let mut e = vec![1usize];
    for s in &t.slots {
        let m = s.len() - 1;
        let mut n = vec![0usize; e.len() + 1];
        for (k, x) in e.iter().enumerate() {
            n[k] = n[k].saturating_add(*x);
            n[k + 1] = n[k + 1].saturating_add(x.saturating_mul(m));
        }
        e = n;
    }
    let mut total = 0usize;
    for (k, x) in e.iter().enumerate() {
        total = total.saturating_add(*x);
        if total > cap || k > 5 {
            return k.saturating_sub(1);
        }
    }
    t.slots.len()
}

const REMOTE_LISTS: &[&str] = &[
    "1 10.0.0.1 5555",
    "2 ::1 0",
    "1 10.0.0.1 5555 2",
    "1 10.0.0.1",
    "1 10.0.0.1 5555 2 10.0.0.2 5556",
    "1 10.0.0.1 5555 2 10.0.0.2 5556 3 ::1 9",
];

/// Every remote candidate that is written must be stored.
fn remote_list(v: &str) -> Verdict {
    use webrtc_sdp::attribute_type::SdpAttribute;
    trans(1);
    let n = v.split_whitespace().count() / 3;
    match format!("remote-candidates:{v}").parse::<SdpAttribute>() {
        Err(_) => Ok("refused"),
        Ok(a) => {
            let t = a.to_string();
            let kept = t.split(':').skip(1).collect::<Vec<_>>().join(":").split_whitespace().count() / 3;
            if kept == n {
                Ok("read")
            } else {
                Err(format!("{n} remote candidates are written, {kept} are kept"))
            }
        }
    }
}

fn hosts() -> Vec<String> {
    HOSTS.iter().chain(BAD_HOSTS).map(|x| x.to_string()).collect()
}
fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|x| x.to_string()).collect()
}
fn lists(e: &Engine, head: &str, sep: &str, el: impl Fn(usize) -> String) -> Vec<String> {
    lens(e)
        .into_iter()
        .map(|n| format!("{head}{}", (0..n).map(&el).collect::<Vec<_>>().join(sep)))
        .collect()
}
fn long(n: usize) -> String {
    "x".repeat(n)
}

/// Every short string over a sharp alphabet in the place of `%` of every template.
fn free(_: &Engine, templates: &'static [&'static str]) -> Space {
    const CH: [&str; 11] = [" ", "-", "a", "B", ".", ":", "=", ",", "0", "\t", ";"];
    let n = seq_count(CH.len(), 5);
    Space::Fn(
        "every string of up to 5 sharp characters in every free text",
        n * templates.len(),
        Box::new(move |i| {
            let x: String = seq_at(CH.len(), i / templates.len()).iter().map(|c| CH[*c]).collect();
            templates[i % templates.len()].replace('%', &x)
        }),
    )
}

fn c10(e: &Engine) -> Vec<Space> {
    let nums = nums();
    let ws = &["", " ", "  ", "\t"];
    vec![
        free(e, &["s=%", "b=%:1", "o=% 1 2 IN IP4 1.2.3.4", "o=u 1 2 IN IP4 %", "c=IN IP4 %", "c=IN IP6 1.2.3.4%", "b=AS:1%"]),
        Space::Tm("version", tm(&[ws, &["v"], ws, &["="], ws, &["0"], ws]).with(5, &nums), ""),
        Space::Tm(
            "origin",
            tm(&[
                &["o=-", "o=user", "o=1", "o=a:b=c", "o=é", "o=IN"],
                &["0"],
                &["0"],
                &["IN", "in", "In", "IP4", "OUT", "I", "INN"],
                &["IP4", "IP6", "ip4", "iP6", "IP5", "IP", "4"],
                &["0.0.0.0"],
                &[DROP, "x", "x y z"],
            ])
            .with(1, &nums)
            .with(2, &nums)
            .with(5, &hosts())
            .droppable(),
            " ",
        ),
        Space::Tm(
            "connection",
            tm(&[
                &["c=IN", "c=in", "c=IP4", "c=OUT", "c=", "c"],
                &["IP4", "IP6", "ip4", "ip6", "IP5", "IN"],
                &["1.2.3.4"],
                &[DROP, "x", "/1"],
            ])
            .with(2, &hosts())
            .with(
                2,
                &strs(&[
                    "1.2.3.4/1", "1.2.3.4/1/2", "1.2.3.4/", "1.2.3.4//", "/", "/1", "1.2.3.4/1/", "1.2.3.4//2", "::1/3",
                    "::1/3/4", "h.example/255/4294967295", "h/256", "h/1/4294967296", "1.2.3.4/0/0", "1.2.3.4/-1",
                ]),
            )
            .with(
                2,
                &hosts()
                    .iter()
                    .chain(&special_addresses())
                    .flat_map(|h| ["", "/0", "/3", "/255", "/127/3", "/1/0"].map(|s| format!("{h}{s}")))
                    .collect::<Vec<_>>(),
            )
            .with(2, &nums.iter().map(|n| format!("10.0.0.1/{n}")).collect::<Vec<_>>())
            .with(2, &nums.iter().map(|n| format!("10.0.0.1/7/{n}")).collect::<Vec<_>>())
            .with(2, &nums.iter().map(|n| format!("h.example/{n}/{n}")).collect::<Vec<_>>())
            .droppable(),
            " ",
        ),
        Space::Tm(
            "bandwidth",
            tm(&[
                &["b=", "B=", "b =", "b", "bb="],
                &[
                    "AS", "as", "As", "CT", "ct", "cT", "TIAS", "tias", "TiAs", "X", "RR", "RS", "", " ", "AS AS", "é", "AS ",
                    "X-AS", "ASX", "TIA", "C",
                ],
                &[":", "", " ", "::", ": ", " :", "=", ":1:", "/"],
                &["1"],
                ws,
            ])
            .with(3, &nums),
            "",
        ),
        Space::Tm(
            "timing",
            tm(&[&["t=", "T=", "t"], &["0"], &["0"], &[DROP, "0", "x"]])
                .with(1, &nums)
                .with(2, &nums)
                .droppable(),
            " ",
        ),
        Space::Tm(
            "session name",
            tm(&[
                &["s", "S", " s", "s "],
                &["=", "", "==", " ="],
                &["-", "", " ", "  ", "\t", "a", "é", "a b", "=", ":", "\u{0}", "v=0", "0", "*"],
                &["", " ", "\t ", "x"],
                &["", "-", " - ", "日本"],
            ]),
            "",
        ),
        Space::Tm(
            "line types",
            tm(&[
                ws,
                &[
                    "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u",
                    "v", "w", "x", "y", "z", "A", "B", "C", "E", "I", "K", "M", "O", "P", "R", "S", "T", "U", "V", "Z", "", "é",
                    "1", "-", "ss", "s s", "vv", "\u{0}",
                ],
                ws,
                &["=", "", "==", " = "],
                ws,
                &["0", "0 0", "x", "", "AS:1", "IN IP4 1.2.3.4", "- 1 1 IN IP4 1.2.3.4", "sendrecv", "audio 9 RTP/AVP 0"],
            ]),
            "",
        ),
        Space::List(
            "long values",
            lens(e)
                .into_iter()
                .flat_map(|n| {
                    vec![
                        format!("s={}", long(n)),
                        format!("o={} 1 2 IN IP4 1.2.3.4", long(n)),
                        format!("o=- 1 2 IN IP4 1.2.3.4{}", " t".repeat(n)),
                        format!("b={}:1", long(n)),
                        format!("b=AS:{}1", "0".repeat(n)),
                        format!("t={}1 2", "0".repeat(n)),
                        format!("t=1{}2", " ".repeat(n)),
                        format!("c=IN IP4 {}.example", long(n.min(63))),
                        format!("c=IN IP4 1.2.3.4/{}5/6", "0".repeat(n)),
                        format!("v={}0", "0".repeat(n)),
                    ]
                })
                .collect(),
        ),
    ]
}

fn c11(e: &Engine) -> Vec<Space> {
    let nums = nums();
    let mut kinds = vec!["audio".to_string()];
    for k in ["audio", "video", "application", "text", "message", "image", "data", "a", "audios", "videoo", "vide"] {
        kinds.push(k.into());
        kinds.extend(cases(k));
    }
    let mut protos = vec!["RTP/AVP".to_string()];
    for k in crate::refparse::PROTOS {
        protos.push(k.into());
        protos.extend(cases(k));
    }
    protos.extend(strs(&[
        "RTP", "RTP/AVPFF", "UDP", "udp", "SCTP", "TCP/RTP/AVP", "RTP/AVP/", "/RTP/AVP", "TCP/DTLS/RTP/AV", "x", "UDP/RTP/AVP",
        "TCP/TLS/RTP/SAVPF", "UDP/TLS/RTP/AVPF", "UDP/DTLS/RTP/SAVPF", "DTLS", "TLS/SCTP",
    ]));
    let mut ports: Vec<String> = nums.clone();
    for a in ["0", "9", "65535", "65536", "x", ""] {
        for b in ["0", "1", "2", "4294967295", "4294967296", "x", "", "-1"] {
            ports.push(format!("{a}/{b}"));
        }
    }
    ports.extend(nums.iter().map(|n| format!("9/{n}")));
    ports.extend(strs(&["9/2/3", "9/2/x", "9//", "/", "9/ 2"]));
    let mut fmts: Vec<String> = nums.clone();
    fmts.extend((0..=300).map(|n: u32| n.to_string()));
    fmts.extend(strs(&["webrtc-datachannel", "*", "x", "0 1", "0 19", "96 x", "x 96", "é", "0 0", "127 0 127"]));
    fmts.sort();
    fmts.dedup();
    let base = |k: &'static [&'static str], f: &'static [&'static str]| {
        tm(&[&["m="], k, &["9"], &["RTP/AVP"], f, &[DROP, "8", "x", "128", "64", "1"]])
    };
    let joined = |t: Tm, what: &'static str| {
        let mut t = t.with(2, &ports).with(3, &protos).with(4, &fmts);
        t = t.with(1, &kinds).droppable();
        // no separator between "m=" and the kind
        let first = t.slots.remove(0);
        let k = t.slots[0].clone();
        t.slots[0] = k
            .iter()
            .map(|x| if x == DROP { first[0].clone() } else { format!("{}{x}", first[0]) })
            .collect();
        Space::Tm(what, t, " ")
    };
    let mut v = vec![
        free(e, &["m=application 9 DTLS/SCTP %", "m=audio 9 RTP/AVP 0%", "m=video %9 RTP/AVP 0", "m=%audio 9 RTP/AVP 0", "m=audio 9/%0 RTP/AVP 0"]),
        joined(base(&["audio"], &["0"]), "audio media line"),
        joined(base(&["video"], &["96"]), "video media line"),
        joined(base(&["application"], &["webrtc-datachannel"]), "application media line"),
    ];
    v.push(Space::List(
        "format lists",
        lens(e)
            .into_iter()
            .flat_map(|n| {
                let f = |b: usize, m: usize| (0..n).map(|i| format!(" {}", b + i % m)).collect::<String>();
                vec![
                    format!("m=audio 9 RTP/AVP{}", f(96, 32)),
                    format!("m=video 9 RTP/AVP{}", f(3, 16)),
                    format!("m=application 9 DTLS/SCTP{}", f(0, 100000)),
                    format!("m=application 9 DTLS/SCTP{}", " webrtc-datachannel".repeat(n)),
                    format!("m=audio 9 RTP/AVP{} 64", f(96, 32)),
                    format!("m=audio 9 RTP/AVP 128{}", f(96, 32)),
                    format!("m=audio{}9  RTP/AVP   0", " ".repeat(n)),
                ]
            })
            .collect(),
    ));
    v.push(Space::List(
        "all pairs and triples of payload types",
        {
            let mut l = vec![];
            for a in 0..=140u32 {
                for b in 0..=140u32 {
                    l.push(format!("m=audio 9 RTP/AVP {a} {b}"));
                    l.push(format!("m=video 9/1 UDP/TLS/RTP/SAVPF 0 {a} {b}"));
                }
            }
            l
        },
    ));
    v.push(Space::List("every bad payload type at every place of a list", {
        let mut l = vec![];
        let bad = ["1", "2", "19", "64", "71", "72", "76", "77", "95", "128", "129", "255", "256", "x", "", "-1", "096", "00", "3"];
        for n in 1..=e.pick(24, 70) {
            for b in bad {
                for at in 0..n {
                    for (k, f) in [(1, 0), (128 - 96, 96), (2, 8), (16, 3)] {
                        let x: String = (0..n).map(|i| if i == at { format!(" {b}") } else { format!(" {}", f + i % k) }).collect();
                        l.push(format!("m=audio 9 RTP/AVP{x}"));
                        if n <= 8 {
                            l.push(format!("m=video 9 UDP/TLS/RTP/SAVPF{x} 0"));
                            l.push(format!("m=application 9 DTLS/SCTP{x}"));
                            l.push(format!("m=audio 9 RTP/AVP {b}{x}"));
                        }
                    }
                }
            }
        }
        l
    }));
    v.push(Space::List("every sequence of media line tokens", {
        let t = ["audio", "video", "application", "9", "0/2", "RTP/AVP", "UDP/DTLS/SCTP", "0", "96", "19", "webrtc-datachannel", "x", "", "128"];
        let idx: Vec<usize> = (0..t.len()).collect();
        seqs(&idx, 0, e.pick(5, 6)).into_iter().map(|p| format!("m={}", p.iter().map(|i| t[*i]).collect::<Vec<_>>().join(" "))).collect()
    }));
    v
}

fn c12(e: &Engine) -> Vec<Space> {
    let nums = nums();
    let h = hosts();
    let mut v = vec![
        free(e, &["ice-ufrag:%", "ice-pwd:%", "identity:%", "ice-options:%", "dtls-message:client %", "candidate:% 1 UDP 5 1.2.3.4 9 typ host", "candidate:1 1 UDP 5 1.2.3.4 9 typ host ufrag %", "candidate:1 1 UDP 5 1.2.3.4 9 typ host % x y", "candidate:1 1 UDP 5 % 9 typ host", "ice-pwd%", "setup:%"]),
        Space::Tm(
            "candidate",
            tm(&[
                &["candidate:1", "candidate:", "candidate:a+/b", "CANDIDATE:0", "candidate: 7"],
                &["1"],
                &["UDP", "udp", "uDp", "TCP", "tcp", "Tcp", "TLS", "ssltcp", "UDPX", "0"],
                &["5"],
                &["1.2.3.4"],
                &["9"],
                &["typ", "TYP", "Typ", "type", "ty"],
                &["host", "HOST", "srflx", "Srflx", "prflx", "PRFLX", "relay", "reLay", "relayed", "token"],
                &[DROP, "raddr 10.0.0.1", "raddr 1.2.3.4", "raddr 0.0.0.0", "raddr ::1", "RADDR h.example", "raddr 300.1.1.1", "raddr"],
                &[DROP, "rport 0", "rport 9", "rport 65535", "rport 65536", "Rport 7", "rport x", "rport -1"],
                &[DROP, "tcptype active", "tcptype passive", "tcptype SO", "TCPTYPE so", "tcptype actpass", "tcptype"],
                &[DROP, "generation 0", "GENERATION 4294967295", "generation 4294967296", "generation x"],
                &[DROP, "ufrag abc", "Ufrag +/=", "ufrag ufrag", "ufrag"],
                &[DROP, "network-cost 0", "network-cost 4294967295", "network-cost 4294967296", "Network-Cost 9"],
                &[DROP, "ext 1", "a b c d", "Ext ext ext 2", "e", "network-id 1", "rel-addr 1.2.3.4", "raddr 9.9.9.9"],
            ])
            .with(1, &nums)
            .with(3, &nums)
            .with(4, &h)
            .with(5, &nums),
            " ",
        ),
        Space::Tm(
            "candidate, tokens left out or doubled",
            tm(&[&["candidate:1"], &["1"], &["UDP"], &["5"], &["1.2.3.4"], &["9"], &["typ"], &["host"], &[DROP, "generation 0"]])
                .droppable(),
            " ",
        ),
        Space::List("all orders of candidate extensions", {
            let ext = [
                "raddr 10.0.0.1",
                "rport 77",
                "tcptype so",
                "generation 3",
                "ufrag uf",
                "network-cost 9",
                "foo bar",
                "x y",
                "raddr h.example",
                "generation 8",
            ];
            let idx: Vec<usize> = (0..ext.len()).collect();
            seqs(&idx, 0, e.pick(5, 6))
                .into_iter()
                .map(|p| {
                    format!(
                        "candidate:1 1 TCP 5 1.2.3.4 9 typ relay {}",
                        p.iter().map(|i| ext[*i]).collect::<Vec<_>>().join(" ")
                    )
                })
                .collect()
        }),
        Space::List("every sequence of candidate extension tokens", {
            let t = ["raddr", "rport", "tcptype", "generation", "ufrag", "network-cost", "x", "1.2.3.4", "7", "so", ""];
            let idx: Vec<usize> = (0..t.len()).collect();
            seqs(&idx, 0, e.pick(5, 6))
                .into_iter()
                .map(|p| format!("candidate:1 1 UDP 5 1.2.3.4 9 typ host {}", p.iter().map(|i| t[*i]).collect::<Vec<_>>().join(" ")))
                .collect()
        }),
        Space::List("candidate extensions with one token left out", {
            let t = ["raddr 10.0.0.1", "rport 77", "tcptype so", "generation 3", "ufrag uf", "network-cost 9", "foo bar"];
            let idx: Vec<usize> = (0..t.len()).collect();
            let mut l = vec![];
            for p in seqs(&idx, 1, e.pick(4, 5)) {
                let w: Vec<&str> = p.iter().flat_map(|i| t[*i].split(' ')).collect();
                for d in 0..w.len() {
                    let x: Vec<&str> = w.iter().enumerate().filter(|y| y.0 != d).map(|y| *y.1).collect();
                    l.push(format!("candidate:1 1 TCP 5 1.2.3.4 9 typ srflx {}", x.join(" ")));
                }
            }
            l
        }),
        Space::List(
            "numbers of candidate extensions",
            lists(e, "candidate:1 1 UDP 5 1.2.3.4 9 typ host ", " ", |i| format!("n{i} v{i}")),
        ),
        Space::List(
            "numbers of candidate extension tokens",
            lists(e, "candidate:1 1 UDP 5 1.2.3.4 9 typ host ", " ", |i| format!("n{i}")),
        ),
        Space::Tm(
            "remote-candidates",
            tm(&[&["remote-candidates:"], &["1"], &[" "], &["10.0.0.1"], &[" "], &["5555"], &["", " "]])
                .with(1, &nums)
                .with(3, &h)
                .with(5, &nums)
                .with(5, &strs(&["", "x"])),
            "",
        ),
        Space::Tm(
            "rtcp",
            tm(&[
                &["rtcp:9"],
                &[DROP, "IN", "in", "OUT", "IP4"],
                &[DROP, "IP4", "IP6", "ip4", "ip6", "IP5"],
                &[DROP, "0.0.0.0"],
                &[DROP, "x"],
            ])
            .with(0, &nums.iter().map(|n| format!("rtcp:{n}")).collect::<Vec<_>>())
            .with(3, &h)
            .with(0, &strs(&["rtcp:", "rtcp", "RTCP:1", "rtcp:x"])),
            " ",
        ),
        Space::Tm(
            "rtcp with address",
            tm(&[&["rtcp:9"], &["IN", "in", "OUT"], &["IP4", "IP6", "iP6"], &["0.0.0.0"], &[DROP, "x", "y z"]])
                .with(0, &nums.iter().map(|n| format!("rtcp:{n}")).collect::<Vec<_>>())
                .with(3, &h)
                .droppable(),
            " ",
        ),
        Space::Tm(
            "sctpmap",
            tm(&[
                &["sctpmap:5000"],
                &["webrtc-datachannel", "WEBRTC-DATACHANNEL", "Webrtc-DataChannel", "datachannel", "x", "webrtc"],
                &["256"],
                &[DROP, "1"],
            ])
            .with(0, &nums.iter().map(|n| format!("sctpmap:{n}")).collect::<Vec<_>>())
            .with(2, &nums)
            .droppable(),
            " ",
        ),
        Space::Tm(
            "one number",
            tm(&[&["sctp-port:", "max-message-size:", "ice-pacing:", "SCTP-port:", "sctp-port", "ice-pacing"], &["", " ", "\t"], &["5"], &["", " ", " 5", ";"]])
                .with(2, &nums)
                .with(2, &strs(&["", "x"])),
            "",
        ),
        Space::Tm(
            "one text",
            tm(&[
                &["ice-ufrag", "ice-pwd", "identity", "ice-options", "ICE-ufrag", "Ice-Pwd", "IDENTITY", "ice-OPTIONS"],
                &[":", "", " :", ": ", "::"],
                &["abc", "", "a", "é", "ABC+/=", "a b", "a  b", "a:b", "a;b=c", "\u{0}", "0", "trickle", "ice2 trickle x", "  "],
                &["", " ", " z", ":", "\t", ","],
            ]),
            "",
        ),
        Space::List(
            "ice-options lists",
            lists(e, "ice-options:", " ", |i| format!("opt{i}")),
        ),
        Space::List(
            "long texts",
            lens(e)
                .into_iter()
                .flat_map(|n| {
                    ["ice-ufrag", "ice-pwd", "identity", "dtls-message:client ", "candidate"]
                        .iter()
                        .map(|k| {
                            if *k == "candidate" {
                                format!("candidate:{} 1 UDP 5 1.2.3.4 9 typ host ufrag {}", long(n), long(n))
                            } else if k.contains(':') {
                                format!("{k}{}", long(n))
                            } else {
                                format!("{k}:{}", long(n))
                            }
                        })
                        .collect::<Vec<_>>()
                })
                .collect(),
        ),
        Space::Tm(
            "setup",
            tm(&[
                &["setup", "SETUP", "Setup"],
                &[":", "", ": "],
                &["active", "passive", "actpass", "holdconn", "ACTIVE", "pasSive", "ActPass", "HoldConn", "", "act", "activ", "actives", "none", "*"],
                &["", " ", " x"],
            ]),
            "",
        ),
        Space::Tm(
            "dtls-message",
            tm(&[
                &["dtls-message", "DTLS-message"],
                &[":", ""],
                &["client", "server", "Client", "SERVER", "peer", ""],
                &[" ", "  ", "", "\t", ":"],
                &["AAAA", "", "=", "a:b", "a=b", "é"],
                &["", " ", " x"],
            ]),
            "",
        ),
    ];
    // fingerprints: every hash with every length up to 70 bytes, and every single digit pair
    let mut f = vec![];
    for h in ["sha-1", "sha-224", "sha-256", "sha-384", "sha-512", "SHA-1", "sha-0", "md5", "sha1", "sha-2", ""] {
        for n in 0..=70 {
            f.push(format!("fingerprint:{h} {}", fp(n, 3)));
        }
        f.push(format!("fingerprint:{h} {}", fp(20, 3).to_lowercase()));
        f.push(format!("fingerprint:{h}"));
        f.push(format!("fingerprint:{h} {} x", fp(20, 3)));
    }
    for b in 0..=255u32 {
        f.push(format!("fingerprint:sha-1 {}:{b:02X}", fp(19, 1)));
        f.push(format!("fingerprint:sha-1 {b:02x}:{}", fp(19, 1)));
        f.push(format!("fingerprint:sha-256 {}:{b:02x}:{}", fp(15, 1), fp(16, 2)));
    }
    for c in ["", "0", "000", "0g", "g0", " 0", "0 ", "-1", "0x", "é", "xy", "٣٣", "1_"] {
        for p in [0usize, 7, 19] {
            let mut x: Vec<String> = fp(20, 9).split(':').map(str::to_string).collect();
            x[p] = c.into();
            f.push(format!("fingerprint:sha-1 {}", x.join(":")));
        }
    }
    v.push(Space::List("fingerprints", f));
    v
}

fn c13(e: &Engine) -> Vec<Space> {
    let nums = nums();
    let mut v = vec![
        free(e, &["rtpmap:5 %/8000", "rtpmap:5 x/8%", "rtcp-fb:5 nack pli%", "rtcp-fb:5 ack app %", "extmap:5 urn:%", "extmap:5 urn:x %", "extmap:5%", "framerate:%", "ptime:%"]),
        Space::Tm(
            "rtpmap",
            tm(&[
                &["rtpmap:"],
                &["0"],
                &[" ", "", "  ", "\t", "/"],
                &["opus", "", "a", "VP8", "é", "x-y_z", "PCMU:1", "H264=1", "L16 "],
                &["/", "", "//", " /"],
                &["48000"],
                &["", "/2", "/", "/2/3", "/x", "/-1", "/4294967295", "/4294967296", "/0", "/1"],
                &["", " ", " x"],
            ])
            .with(1, &nums)
            .with(1, &strs(&["*", "", "x"]))
            .with(5, &nums)
            .with(6, &nums.iter().map(|n| format!("/{n}")).collect::<Vec<_>>()),
            "",
        ),
        Space::Tm(
            "rtcp-fb",
            tm(&[
                &["rtcp-fb:", "RTCP-fb:", "rtcp-fb"],
                &["96", "*"],
                &[" ", "", "  ", "\t"],
                &["nack", "ack", "ccm", "trr-int", "goog-remb", "transport-cc", "NACK", "foo", "", "remb", "transport"],
                &[
                    "", " pli", " sli", " rpsi", " app", " fir", " tmmbr", " tstr", " vbcm", " 0", " 100", " 4294967295",
                    " 4294967296", " -1", " x", " PLI", "  ", " ", "  pli", " fir ", " pli x",
                ],
                &["", " x", " x y", "  ", " é", " =;", " pli", " 5"],
                &["", " ", " z"],
            ])
            .with(1, &nums),
            "",
        ),
        Space::Tm(
            "rtcp-fb interval",
            tm(&[&["rtcp-fb:5 trr-int "], &["5"], &["", " x", " x y"]]).with(1, &nums),
            "",
        ),
        Space::Tm(
            "extmap",
            tm(&[
                &["extmap:", "EXTMAP:", "extmap"],
                &["1"],
                &[
                    "", "/sendonly", "/recvonly", "/sendrecv", "/SENDONLY", "/RecvOnly", "/sendRecv", "/inactive", "/", "/x",
                    "/sendonly/recvonly", "//",
                ],
                &[" ", "", "  ", "\t"],
                &["urn:x", "u", "", "http://a/b?c=d#e", "/", "é", "a:b=c;d"],
                &["", " a", " a b", " a  b", " a\tb", " a=b;c", " é", " \u{0}", " a b c d e f g h", " "],
                &["", " "],
            ])
            .with(1, &nums)
            .with(1, &strs(&["", "x"])),
            "",
        ),
        Space::Tm(
            "packet times",
            tm(&[&["ptime", "maxptime", "PTIME", "MaxPtime", "minptime"], &[":", "", ": "], &["20"], &["", " ", " x", ";"]])
                .with(2, &nums)
                .with(2, &strs(&["", "x", "20.0"])),
            "",
        ),
        Space::List(
            "extension attributes",
            lists(e, "extmap:3/sendonly urn:x ", " ", |i| format!("e{i}")),
        ),
        Space::List(
            "long texts",
            lens(e)
                .into_iter()
                .flat_map(|n| {
                    vec![
                        format!("rtpmap:5 {}/8000", long(n)),
                        format!("rtpmap:5 x/{}8/{}2", "0".repeat(n), "0".repeat(n)),
                        format!("extmap:5 {}", long(n)),
                        format!("rtcp-fb:5 nack pli {}", long(n)),
                        format!("rtcp-fb:5 ack app{}", " y".repeat(n)),
                        format!("framerate:{}1.5", "0".repeat(n)),
                        format!("framerate:1.{}5", "0".repeat(n)),
                    ]
                })
                .collect(),
        ),
    ];
    let mut f = vec![];
    for a in 0..=1000u32 {
        f.push(format!("framerate:{a}"));
        f.push(format!("framerate:0.{a}"));
        f.push(format!("framerate:{}.{:02}", a / 10, a % 100));
    }
    for n in &nums {
        for t in [n.clone(), format!("{n}.0"), format!("{n}.5"), format!("0.{n}"), format!("{n}.{n}"), format!("{n}e{n}"), format!("-{n}.25"), format!("{n}e-3")] {
            f.push(format!("framerate:{t}"));
        }
    }
    for b in 0..64 {
        for d in [0u64, 1, 2, 3, 5] {
            f.push(format!("framerate:{}", (1u64 << b) ^ d));
            f.push(format!("framerate:{}.{:03}", (1u64 << b) ^ d, b * 7 + d));
        }
    }
    for x in [
        "", " ", "-0", "0.0", "-0.0", "1e3", "1E-3", "1e400", "-1e400", "1e-400", "inf", "-inf", "infinity", "Inf", "nan", "NaN", "-nan", ".5", "5.",
        ".", "-", "1,5", "1 2", "0x1", "1_0", "1f", "٣", "1e", "e1", "--1", "1e308", "1.7976931348623157e308", "5e-324", "2e-324", "+1",
    ] {
        f.push(format!("framerate:{x}"));
        f.push(format!("FrameRate: {x} "));
    }
    f.push("framerate".into());
    v.push(Space::List("frame rates", f));
    v
}

fn c14(e: &Engine) -> Vec<Space> {
    let nums = nums();
    let mut v = vec![free(e, &["fmtp:96 %", "fmtp:96 a=%", "fmtp:96 %=1", "fmtp:96 max-fs=1%", "fmtp:96 1/2%", "fmtp:96 1,2%", "fmtp:% max-fs=1", "fmtp:96 apt=1;%x=2"]), Space::Tm(
        "payload type and kinds of values",
        tm(&[
            &["fmtp:", "FMTP:", "fmtp"],
            &["96"],
            &[" ", "", "  ", "\t"],
            &["max-fs=1", "", "0-15", "0-15,66,70", "1/2", "0", "100", "x", "=", "x=", "=x", ";", "max-fs", "0/0/0", "128/129", "101", "5-4", "5-5", "*", "0-100", "0-101", ",", "1,", "é", "1-2-3", "a=1/2", "1/2,3", "1-2/3"],
            &["", ";", ";;", " ", ";x", ";x=1", "; x=1", " ;x=1", "/1", ",1", "-1", "=1"],
            &["", ";", " ", ";apt=1", ";rtx-time=3", "/2"],
        ])
        .with(1, &nums)
        .with(1, &strs(&["*", "", "x"])),
        "",
    )];
    // every parameter with every number, alone and after/before another one
    let mut names: Vec<String> = crate::refparse::FMTP_INTS.iter().map(|x| x.0.to_string()).collect();
    names.extend(crate::refparse::FMTP_BOOLS.iter().map(|x| x.0.to_string()));
    names.push("profile-level-id".into());
    names.push("unknown-one".into());
    let mut vals = nums.clone();
    for x in ["", "x", " 1", "1 ", "ffffff", "1000000", "42e01f", "42E01F", "00042e01f", "g", "true", "=1", "1=1", "a b"] {
        vals.push(x.into());
    }
    let mut l = vec![];
    for n in &names {
        for x in &vals {
            l.push(format!("fmtp:96 {n}={x}"));
            l.push(format!("fmtp:96 max-fr=3;{n}={x};max-br=4"));
            l.push(format!("fmtp:96 {n}=1;{n}={x}"));
            l.push(format!("fmtp:96 {n}={x};{n}=0"));
            l.push(format!("fmtp:96 apt=7;{n}={x};y=z"));
            for c in cases(n) {
                l.push(format!("fmtp:96 {c}={x}"));
            }
        }
        for bad in ["", "x", "=", ";"] {
            l.push(format!("fmtp:96 {n}{bad}"));
            l.push(format!("fmtp:96 a=b;{n}{bad}"));
            l.push(format!("fmtp:96 {n}{bad};a=b"));
            l.push(format!("fmtp:96 {n} =1{bad}"));
        }
    }
    v.push(Space::List("every parameter with every number", l));
    // how the values of two parameters relate
    let few = ["0", "1", "2", "3", "10", "20", "31", "60", "120", "255", "48000", "4294967295"];
    let (k, m, two) = (names.len(), few.len(), names.clone());
    v.push(Space::Fn(
        "every pair of parameters with every pair of values",
        k * k * m * m,
        Box::new(move |i| {
            let (a, b, x, y) = (i % k, i / k % k, i / k / k % m, i / k / k / m);
            format!("fmtp:96 {}={};{}={}", two[a], few[x], two[b], few[y])
        }),
    ));
    // all sequences of parameters
    let items: Vec<String> = names
        .iter()
        .map(|n| match n.as_str() {
            "profile-level-id" => format!("{n}=42e01f"),
            "packetization-mode" | "profile" => format!("{n}=2"),
            "maxplaybackrate" => format!("{n}=44100"),
            "apt" => format!("{n}=96"),
            "level-idx" | "max-fs" | "max-cpb" | "max-dpb" | "max-br" | "max-mbps" | "max-fr" => format!("{n}=31"),
            "rtx-time" => format!("{n}=3000"),
            "ptime" | "minptime" | "maxptime" | "maxaveragebitrate" => format!("{n}=20"),
            _ => format!("{n}=1"),
        })
        .chain(["Second=Two".to_string(), "x=".into(), " ptime=9".into(), "".into()])
        // a second value for each of them, and other spellings
        .chain(names.iter().map(|n| match n.as_str() {
            "profile-level-id" => format!("{n}=4d0032"),
            "apt" => "APT=5".into(),
            "packetization-mode" => "Packetization-Mode=1".into(),
            _ => format!("{n}=0"),
        }))
        .collect();
    let d = e.pick(4, 4);
    let k = items.len();
    v.push(Space::Fn(
        "all sequences of parameters, two values of each, up to 3 (thorough: 4)",
        seq_count(k, d) - 1,
        Box::new(move |i| format!("fmtp:97 {}", seq_at(k, i + 1).iter().map(|x| items[*x].as_str()).collect::<Vec<_>>().join(";"))),
    ));
    // rtx: deeper
    let rtx = ["apt=1", "apt=2", "rtx-time=3", "rtx-time=4", "RTX-Time=5", "x=1", "apt=", "rtx-time="];
    let (k, d) = (rtx.len(), e.pick(5, 6));
    v.push(Space::Fn(
        "all sequences of the parameters of retransmission",
        seq_count(k, d) - 1,
        Box::new(move |i| format!("fmtp:97 {}", seq_at(k, i + 1).iter().map(|x| rtx[*x]).collect::<Vec<_>>().join(";"))),
    ));
    v.push(Space::List("redundancy lists", {
        let mut l = lists(e, "fmtp:121 ", "/", |i| (i % 129).to_string());
        for a in 0..=140 {
            for b in 0..=140 {
                l.push(format!("fmtp:121 {a}/{b}"));
            }
        }
        for n in &nums {
            l.push(format!("fmtp:121 5/{n}"));
            l.push(format!("fmtp:121 {n}/5/6"));
        }
        l
    }));
    v.push(Space::List("event lists", {
        let mut l = lists(e, "fmtp:101 ", ",", |i| (i % 101).to_string());
        l.extend(lists(e, "fmtp:101 ", ",", |i| format!("{}-{}", i % 50, 50 + i % 51)));
        for a in 0..=110 {
            l.push(format!("fmtp:101 {a}"));
            for b in 0..=110 {
                l.push(format!("fmtp:101 {a}-{b}"));
                l.push(format!("fmtp:101 0,{a}-{b},5"));
            }
        }
        let items = ["0", "5", "100", "101", "0-15", "5-5", "7-6", "x", "", "-", "1-", "-1", " ", "1-2-3", "99-100", "99-101"];
        for i in 0..seq_count(items.len(), e.pick(4, 5)) {
            let p = seq_at(items.len(), i);
            l.push(format!("fmtp:101 {}", p.iter().map(|x| items[*x]).collect::<Vec<_>>().join(",")));
        }
        l
    }));
    v.push(Space::List(
        "numbers of parameters",
        {
            let mut l = lists(e, "fmtp:96 ", ";", |i| format!("p{i}={i}"));
            l.extend(lists(e, "fmtp:96 ", ";", |i| format!("max-fs={i}")));
            l.extend(lists(e, "fmtp:96 x=", "", |_| "y".into()));
            l
        },
    ));
    v
}

fn c15(e: &Engine) -> Vec<Space> {
    let nums = nums();
    let mut v = vec![
        free(e, &["rid:% send", "rid:a%", "rid:a send %", "rid:a send x=%", "rid:a send depends=%", "rid:a send pt=9%", "simulcast:send %", "simulcast:send a recv %", "simulcast:%", "imageattr:% send *", "imageattr:1 send [x=1,y=2%", "imageattr:1 send [x=1,y=2,%]", "imageattr:1 send [x=1,y=2,sar=%]", "imageattr:1 send [x=1,y=2] %"]),
        Space::Tm(
            "rid",
            tm(&[
                &["rid:", "RID:", "rid"],
                &["foo", "1", "", "~x", "a;b", "é", "*"],
                &[" ", "", "  ", "\t"],
                &["send", "recv", "Send", "RECV", "sendrecv", "", "sendonly"],
                &["", " ", "  ", ";", "\t"],
                &["", "pt=96", "pt=96,97", "pt=", "pt=0,65535", "pt=65536", "pt=x", "pt=96, 97", "pt=,", "PT=96", "pt", "pt=-1"],
                &["", ";", ";;", " ;", "; ", " "],
                &["", "max-width=1", "max-height=2", "max-fps=3", "max-fs=4", "max-br=5", "max-pps=6", "x=y", "depends=a", "depends=a,b", "depends=", "max-width=", "max-fs=4294967296", "MAX-FS=7", "max-fs", "x=", "=", "max-br=-1", "pt=96", "depends=,a", "x=y=z"],
                &["", ";", "; "],
                &["", "max-width=9", "x=z", "depends=c", "max-fs=8", "pt=1", "y"],
                &["", " "],
            ]),
            "",
        ),
        Space::Tm(
            "simulcast",
            tm(&[
                &["simulcast:", "simulcast: ", "SIMULCAST:"],
                &["send", "recv", "Send", "", "rid", "sendrecv"],
                &[" ", "", "  ", "\t"],
                &["a", "a,b", "a;b", "~a", "a,~b;~c", "", "~", "*", "~~a", "é", "rid=a", "rid=a;b", "rid=", "pt=a", "a~b", "-", "1"],
                &["", " ", "  "],
                &["", "recv", "send", "RECV", "x", "recv "],
                &["", " ", "  ", "\t"],
                &["", "d", "d;e,~f", "~d", "rid=d", "pt=96"],
                &["", " ", " x", " send", " send g"],
            ]),
            "",
        ),
    ];
    let mut l = vec![];
    for n in &nums {
        for k in crate::refparse::RID_INTS {
            l.push(format!("rid:a send {k}={n}"));
            l.push(format!("rid:a recv pt=96;{k}={n};x=y"));
            l.push(format!("rid:a recv {k}={n};{k}=7"));
            l.push(format!("rid:a recv {k}=7;{k}={n}"));
        }
        l.push(format!("rid:a send pt={n}"));
        l.push(format!("rid:a send pt=5,{n}"));
        l.push(format!("rid:a send pt={n},5;max-fs=3"));
    }
    let few = ["0", "1", "2", "60", "1280", "4294967295"];
    for k in crate::refparse::RID_INTS {
        for j in crate::refparse::RID_INTS {
            for x in few {
                for y in few {
                    l.push(format!("rid:a send {k}={x};{j}={y}"));
                    l.push(format!("rid:a recv pt=5;{k}={x};depends={y};{j}={y}"));
                }
            }
        }
    }
    v.push(Space::List("rid numbers", l));
    let items = [
        "pt=96", "pt=97,98", "max-width=1", "max-height=2", "max-fps=3", "max-fs=4", "max-br=5", "max-pps=6", "x=y", "depends=a,b", "depends=c",
        "max-width=7", " max-br=8", "max-fs=9 ", "depends=", "z=",
    ];
    let mut l = vec![];
    for i in 0..seq_count(items.len(), e.pick(4, 5)) {
        let p = seq_at(items.len(), i);
        if !p.is_empty() {
            l.push(format!("rid:foo send {}", p.iter().map(|x| items[*x]).collect::<Vec<_>>().join(";")));
        }
    }
    v.push(Space::List("all sequences of rid parameters", l));
    v.push(Space::List("rid and simulcast lists", {
        let mut l = lists(e, "rid:a send pt=", ",", |i| (i * 7 % 65536).to_string());
        l.extend(lists(e, "rid:a send depends=", ",", |i| format!("d{i}")));
        l.extend(lists(e, "rid:a send ", ";", |i| format!("k{i}=v")));
        l.extend(lists(e, "simulcast:send ", ";", |i| format!("{}i{i}", if i % 2 == 0 { "~" } else { "" })));
        l.extend(lists(e, "simulcast:recv ", ",", |i| format!("{}i{i}", if i % 3 == 0 { "~" } else { "" })));
        l.extend(lists(e, "simulcast:recv a;~b send ", ";", |i| format!("x{i},~y{i}")));
        l
    }));
    let mut l = vec![];
    let alt = ["a", "~b", "c,d", "~e,f", "g,~h,i", ""];
    for i in 0..seq_count(alt.len(), e.pick(5, 6)) {
        let p: Vec<&str> = seq_at(alt.len(), i).iter().map(|x| alt[*x]).collect();
        if p.is_empty() {
            continue;
        }
        l.push(format!("simulcast:send {}", p.join(";")));
        l.push(format!("simulcast:recv {} send z;~y", p.join(";")));
        l.push(format!("simulcast:recv z send {}", p.join(";")));
    }
    v.push(Space::List("all simulcast alternatives", l));
    // imageattr
    let xr = [
        "320", "[320,640]", "[320:640]", "[320:16:640]", "[1,2,3]", "0", "4294967295", "4294967296", "", "[", "]", "[]", "[5]", "[1:2:3:4]", "[1,]", "[,1]", "[:]",
        "[1:]", "x", "[1-2]", "-1", "[640:320]", "[3,2,1]", "1.5", "[1,2", "1,2]", "[[1,2]]", "[1 ,2]", "[4294967295:4294967295]", "[1:4294967296]", "[2:0:1]",
    ];
    let sar = [
        "", ",sar=1.1", ",sar=[1.1-1.3]", ",sar=[1.1,1.3]", ",sar=[1.1,1.2,1.3]", ",sar=[1.3-1.1]", ",sar=[1.1-1.1]", ",sar=[1.3,1.1]", ",sar=[1.1,1.1]", ",sar=[1.1]", ",sar=[]",
        ",sar=", ",sar=x", ",sar=[1-2-3]", ",sar=[0,1]", ",sar=0", ",sar=[0.1-9.9]", ",sar=1e2", ",sar=[1.1", ",sar=1.1]", ",sar=[a-b]", ",sar=[1,x]", ",sar=[nan-1]", ",sar=[1-nan]", ",sar=[nan,1]",
        ",sar=[1,nan]", ",sar=[0.3,0.25]", ",sar=16777217",
    ];
    let par = [
        "", ",par=[1.2-1.3]", ",par=[1.3-1.2]", ",par=[1.2-1.2]", ",par=1.2", ",par=[1.2]", ",par=[1.2,1.3]", ",par=[]", ",par=", ",par=[1-2-3]", ",par=[x-1]", ",par=[1-x]", ",par=[1.2-1.3",
        ",par=[nan-1]", ",par=[0-1]", ",par=[-1]",
    ];
    let q = ["", ",q=0.6", ",q=1", ",q=0", ",q=1.5", ",q=", ",q=x", ",q=[1]", ",q=0.1234567"];
    let pack = |dir: &str, d: usize| {
        let s: Vec<Vec<&str>> = vec![
            vec!["[x="],
            xr.to_vec(),
            vec![",y=", ",Y=", ", y=", "y=", ",", ",x="],
            xr.to_vec(),
            sar.to_vec(),
            par.to_vec(),
            q.to_vec(),
            vec!["", ",foo=bar", ",z", ",", ",foo=[a,b]", ",q=0.5", ",sar=2", ",par=[1-2]"],
            vec!["]", "", "]]", "] "],
        ];
        let t = Tm { slots: s.iter().map(|v| v.iter().map(|x| x.to_string()).collect()).collect() };
        let _ = d;
        let mut t2 = t;
        t2.slots.insert(0, vec![format!("imageattr:97 {dir} "), format!("imageattr:* {dir} [x=1,y=2] "), format!("imageattr:0 {dir} * recv ")]);
        t2
    };
    v.push(Space::Tm("image attribute sets", pack("send", 2), ""));
    let mut l = vec![];
    let toks = ["send", "recv", "*", "[x=1,y=2]", "[x=[1,2],y=[3:4],q=0.5]", "Send", "x", "[x=5,y=6,sar=[1.5-2]]", ""];
    for i in 0..seq_count(toks.len(), e.pick(6, 7)) {
        let p: Vec<&str> = seq_at(toks.len(), i).iter().map(|x| toks[*x]).collect();
        l.push(format!("imageattr:97 {}", p.join(" ")));
    }
    for n in &nums {
        l.push(format!("imageattr:{n} send *"));
        l.push(format!("imageattr:1 send [x={n},y=2]"));
        l.push(format!("imageattr:1 send [x=2,y=[{n}:5]]"));
        l.push(format!("imageattr:1 send [x=[1:{n}:5],y=3]"));
        l.push(format!("imageattr:1 send [x=[1:2:{n}],y=3]"));
        l.push(format!("imageattr:1 send [x=[1,{n}],y=3]"));
    }
    for x in ["imageattr", "imageattr:", "imageattr:97", "imageattr:x send *", "imageattr: 97 send *", "imageattr:97  send *"] {
        l.push(x.into());
    }
    v.push(Space::List("sequences of image attribute parts", l));
    v.push(Space::List("image attribute lists", {
        let mut l = lists(e, "imageattr:97 send ", " ", |i| format!("[x={i},y=2]"));
        l.extend(lens(e).into_iter().flat_map(|n| {
            let xs = (0..n).map(|i| i.to_string()).collect::<Vec<_>>().join(",");
            let fs = (0..n).map(|i| format!("{}.5", i)).collect::<Vec<_>>().join(",");
            vec![
                format!("imageattr:97 recv [x=[{xs}],y=5]"),
                format!("imageattr:97 recv [x=1,y=[{xs}]]"),
                format!("imageattr:97 recv [x=1,y=2,sar=[{fs}]]"),
                format!("imageattr:97 recv [x=1,y=2{}]", ",q=0.5".repeat(n)),
            ]
        }));
        l
    }));
    v
}

fn c16(e: &Engine) -> Vec<Space> {
    let nums = nums();
    let mut v = vec![
        free(e, &["mid:%", "label:%", "msid:%", "msid:a %", "msid-semantic:%", "msid-semantic:WMS %", "group:BUNDLE %", "group:%", "ssrc:7 %", "ssrc:7 cname:%", "ssrc-group:FID %", "mid%", "sendrecv%", "x%:1"]),
        Space::Tm(
            "group",
            tm(&[
                &["group", "GROUP", "groups"],
                &[":", "", ": "],
                &["BUNDLE", "LS", "FID", "SRF", "ANAT", "FEC", "DDP", "bundle", "ls", "Fid", "sRf", "anat", "fec", "ddp", "X", "", "BUNDLES", "DUP", "BUNDLE,", "FEC-FR"],
                &["", " ", " a", " a b", "  a", " a  b", "\ta", " 0 1 2 3", " é", " a,b", " BUNDLE", " a a"],
                &["", " ", " c"],
            ]),
            "",
        ),
        Space::Tm(
            "ids and texts",
            tm(&[
                &["mid", "label", "msid", "msid-semantic", "MID", "Label", "mSid", "Msid-Semantic"],
                &[":", "", ": ", "::", " :"],
                &["a", "", "0", "WMS", "*", "-", "é", "{x-y}", "a:b", "a=b", " "],
                &["", " ", " b", "  b", " b c", " *", "\tb", " é", " * *", " b b"],
                &["", " ", " d"],
            ]),
            "",
        ),
        Space::Tm(
            "ssrc",
            tm(&[
                &["ssrc:", "SSRC:", "ssrc"],
                &["5"],
                &["", " ", "  ", "\t", ":"],
                &["", "cname", "CNAME", "msid", "x", "é", "a b"],
                &["", ":", "::", " :", ": "],
                &["", "v", "v w", "v:w", "{x}", " v", "é", "="],
                &["", " "],
            ])
            .with(1, &nums)
            .with(1, &strs(&["", "x", "*"])),
            "",
        ),
        Space::Tm(
            "ssrc-group",
            tm(&[
                &["ssrc-group:", "SSRC-GROUP:", "ssrc-group"],
                &["FID", "DUP", "FEC", "FEC-FR", "SIM", "fid", "Dup", "fec", "fec-Fr", "sim", "X", "", "LS", "FEC-", "FIDS"],
                &[" ", "", "  "],
                &["5"],
                &["", " 6", " x", " 6 7", "  6", ",6", " 5", " 4294967296"],
                &["", " "],
            ])
            .with(3, &nums)
            .with(3, &strs(&["", "x", "5:6"])),
            "",
        ),
        Space::List("lists", {
            let mut l = lists(e, "group:BUNDLE ", " ", |i| format!("m{i}"));
            l.extend(lists(e, "msid-semantic:WMS ", " ", |i| format!("s{i}")));
            l.extend(lists(e, "ssrc-group:SIM ", " ", |i| (i * 1000).to_string()));
            l.extend(lists(e, "msid:a", " ", |_| "b".into()));
            for n in lens(e) {
                for k in ["mid", "label", "msid", "msid-semantic", "group", "ssrc"] {
                    l.push(format!("{k}:{}", long(n)));
                }
                l.push(format!("ssrc:7 {}:{}", long(n), long(n)));
                l.push(format!("ssrc:7 cname{}", ":".repeat(n)));
                l.push(format!("ssrc:{}7 a", "0".repeat(n)));
            }
            l
        }),
    ];
    let mut l = vec![];
    let mut names: Vec<String> =
        crate::refparse::FLAGS.iter().chain(&crate::refparse::VALUED).map(|x| x.to_string()).collect();
    names.extend(strs(&["", "foo", "rtcp-rsize2", "x-google", "crypto", "rtcpmux", "sendreceive", "ice", "tool", "é"]));
    for n in &names {
        let mut forms = vec![n.clone()];
        forms.extend(cases(n));
        // every name that is one edit away
        for i in 0..n.chars().count() {
            let c: Vec<char> = n.chars().collect();
            let st = |x: &[char]| x.iter().collect::<String>();
            forms.push(st(&c[..i]) + &st(&c[i + 1..]));
            forms.push(st(&c[..i]) + "x" + &st(&c[i + 1..]));
            forms.push(st(&c[..i]) + "-" + &st(&c[i..]));
        }
        forms.push(format!("{n}x"));
        forms.push(format!("{n} "));
        forms.push(format!(" {n}"));
        for f in forms {
            for val in ["", ":", ": ", ":0", ":x", ":sendrecv", " x", "=1", ":x:y", ":\t", ": 5", ":*"] {
                l.push(format!("{f}{val}"));
            }
        }
    }
    v.push(Space::List("all attribute names with all kinds of values", l));
    v
}
