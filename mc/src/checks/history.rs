//! C23: results depend only on the input, whatever ran before and whatever runs next to it.
use super::text::LINE_SAMPLES;
use super::text;
use super::*;
use crate::alpha::*;
use crate::sched;
use std::collections::BTreeMap;
use std::fmt::Write;
use std::process::{Command, Stdio};
use std::sync::{Mutex, OnceLock};
use std::time::Duration;
use webrtc_sdp::anonymizer::{AnonymizingClone, StatefulSdpAnonymizer};
use webrtc_sdp::attribute_type::SdpAttribute;
use webrtc_sdp::{parse_sdp, parse_sdp_line};

pub struct History;
pub static C23: History = History;

/// One call (or a few) into the library: an operation and a text.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Job {
    pub op: char,
    pub text: String,
}
/// strict and lenient parse and print, parse, mask and print, single attribute, single line
const OPS: &[char] = &['S', 'L', 'M', 'a', 'l'];

pub fn documents() -> Vec<String> {
    let sections: String = robust::one_of_each().iter().map(|a| format!("a={a}\r\n")).collect();
    let mut v = vec![
        format!("{HEAD}{MLINE}"),
        format!("{HEAD}b=AS:1\r\na=group:BUNDLE 0\r\na=ice-lite\r\na=identity:x\r\n{MLINE}{sections}{MLINE2}a=mid:1\r\na=sctp-port:5\r\n"),
        format!("{HEAD}a=foo\r\n{MLINE}a=bar:1\r\nm=text 9 x 0\r\na=mid:9\r\n{MLINE2}a=mid:1\r\n"),
        format!("{HEAD}{MLINE}a=setup:x\r\na=foo\r\n"),
        format!("{HEAD}{MLINE}a=foo\r\na=setup:x\r\n"),
        format!("{HEAD}{MLINE}a=setup:y\r\n"),
        format!("{HEAD}\r\n\r\n{MLINE}\r\na=setup:y\r\n"),
        format!("{HEAD}a=mid:1\r\n{MLINE}"),
        format!("{HEAD}{MLINE}a=ice-lite\r\n"),
        format!("{HEAD}{MLINE}a=rtcp-mux-only\r\n"),
        format!("{HEAD}{MLINE}a=rtcp-mux\r\na=rtcp-mux-only\r\n"),
        format!("{HEAD}{MLINE}a=rid:a send pt=96\r\na=simulcast:send a\r\n"),
        format!("{HEAD}{MLINE}a=rid:a recv pt=96\r\na=simulcast:send a\r\n"),
        format!("{HEAD}{MLINE}a=rid:a send pt=99\r\n"),
        format!("{HEAD}a=extmap:1 u\r\n{MLINE}"),
        format!("{HEAD}a=extmap:1 u\r\n{MLINE}a=extmap:1 u\r\n"),
        format!("{HEAD}{MLINE}a=extmap:1 u\r\n"),
        "v=0\r\no=- 1 2 IN IP4 127.0.0.1\r\ns=-\r\nc=IN IP4 0.0.0.0\r\n".into(),
        "v=0\r\no=- 1 2 IN IP4 127.0.0.1\r\ns=-\r\nt=0 0\r\nm=audio 9 RTP/AVP 0\r\n".into(),
        String::new(),
        "v=0\r\n".into(),
        "v=1\r\n".into(),
    ];
    let with = |u: &str, a: &str, p: u16, c: &str| {
        format!(
            "v=0\r\no={u} 1 2 IN IP4 {a}\r\ns=-\r\nt=0 0\r\nc=IN IP4 {a}\r\nm=audio {p} RTP/AVP 0\r\na=candidate:1 1 UDP 5 {a} {p} typ srflx raddr {a} rport {p} ufrag {u}\r\n\
             a=ice-ufrag:{u}\r\na=ice-pwd:{u}\r\na=fingerprint:sha-1 {}\r\na=ssrc:1 cname:{c}\r\na=rtcp:{p} IN IP4 {a}\r\na=remote-candidates:1 {a} {p}\r\n",
            fp(20, c.len() as u8)
        )
    };
    v.push(with("alice", "1.2.3.4", 9, "c"));
    v.push(with("bob", "h.example", 1234, "dd"));
    v.push(with("bob", "1.2.3.4", 65535, "c"));
    v
}
/// The jobs whose pairs, triples and interleavings are explored.
fn core() -> Vec<Job> {
    let mut v = vec![];
    let j = |op, t: &str| Job { op, text: t.into() };
    for t in [
        "fmtp:96 max-fs=1;x=2", "fmtp:96 0-15", "fmtp:96 max-fs=2", "setup:x", "foo", "fmtp:96 level-asymmetry-allowed=1", "imageattr:9 send [x=1,y=[2:3]] recv *", "imageattr:9 send [x=1,y=[2:3]", "imageattr:9 recv [x=[1:2],y=[3,4],sar=[0.5-0.7]] [x=1,y=2] send *", "imageattr:9 recv [x=1,y=2]]",
        "simulcast:send a,~b;c recv d", "rtcp-fb:* nack pli", "candidate:1 1 UDP 5 1.2.3.4 9 typ host generation 0 x y", "candidate:1 1 TCP 5 h.x 9 typ host tcptype so",
        "candidate:1 1 UDP 6 h.y 9 typ host raddr 1.1.1.1 rport 5", "rid:a send pt=96;max-width=5;depends=b", "rid:a recv", "extmap:1/sendonly u v w", "ssrc:5 cname:x", "ssrc-group:FID 1 2",
        "group:BUNDLE a b", "rtcp:9 IN IP6 ::1", "rtcp:9", "ice-options:a b", "framerate:1.5", "sendrecv", "rtpmap:96 VP8/90000/2", "rtpmap:96 vp8/90000", "fmtp:96 apt=5;rtx-time=6",
    ] {
        v.push(j('a', t));
    }
    v.push(Job { op: 'a', text: format!("fingerprint:sha-1 {}", fp(20, 1)) });
    v.push(Job { op: 'a', text: format!("fingerprint:sha-1 {}", fp(20, 2)) });
    for t in ["c=IN IP4 224.0.0.1/100/3", "c=IN IP6 h.x", "m=audio 9 RTP/AVP 0 8", "m=application 9 DTLS/SCTP 5000", "m=text 9 x 0", "b=X:1", "o=a 1 2 IN IP4 h.x", "s=n", "x=1", "t=1 2"] {
        v.push(j('l', t));
    }
    for t in documents() {
        for op in ['S', 'L', 'M'] {
            v.push(Job { op, text: t.clone() });
        }
    }
    v
}
/// The core jobs and, after them, jobs for all samples.
pub fn jobs() -> &'static [Job] {
    static J: OnceLock<Vec<Job>> = OnceLock::new();
    J.get_or_init(|| {
        let mut v = core();
        for a in samples() {
            v.push(Job { op: 'a', text: a.clone() });
            let h: String = rid_helpers(&[&a]).iter().map(|x| format!("a={x}\r\n")).collect();
            for op in ['L', 'M'] {
                v.push(Job { op, text: format!("{HEAD}{MLINE}a={a}\r\n{h}") });
                v.push(Job { op, text: format!("{HEAD}a={a}\r\n{MLINE}") });
            }
        }
        for l in LINE_SAMPLES {
            v.push(Job { op: 'l', text: l.to_string() });
        }
        v
    })
}

/// Jobs with long inputs, numbered after the others.
fn big() -> &'static [Job] {
    static J: OnceLock<Vec<Job>> = OnceLock::new();
    J.get_or_init(|| {
        let mut v = vec![];
        for n in [120, 300, 2000] {
            let rep = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<String>();
            for t in [
                format!("{HEAD}{MLINE}{}", rep(&|i| format!("a=foo{i}:x\r\n"))),
                format!("{HEAD}{}{MLINE}", rep(&|_| "a=setup:y\r\n".into())),
                format!("{HEAD}{}", rep(&|i| format!("m={} {i} RTP/AVP 0\r\na=mid:{i}\r\n", if i % 3 == 0 { "text" } else { "audio" }))),
                format!("{HEAD}{}", rep(&|i| format!("b=X{i}:{i}\r\na=ice-pwd:p{i}\r\n"))),
                format!(
                    "{HEAD}{MLINE}{}",
                    rep(&|i| format!(
                        "a=candidate:{i} 1 UDP {i} 10.{}.{}.1 {i} typ srflx raddr h{i}.example rport {} ufrag u{i}\r\na=ssrc:{i} cname:c{i}\r\na=ice-ufrag:f{i}\r\n\
                         a=fingerprint:sha-1 {}\r\n",
                        i / 256,
                        i % 256,
                        9000 + i,
                        fp(20, i as u8)
                    ))
                ),
            ] {
                for op in ['S', 'L', 'M'] {
                    v.push(Job { op, text: t.clone() });
                }
            }
            for t in [
                format!("fmtp:96 {}", rep(&|i| format!("x{i}={i};"))),
                format!("simulcast:send {}a", rep(&|i| format!("~a{i},"))),
                format!("imageattr:9 send {}", rep(&|i| format!("[x=[1,{}],y=2] ", i + 2))),
                format!("group:BUNDLE{}", rep(&|i| format!(" {i}"))),
                format!("candidate:1 1 UDP 5 1.2.3.4 9 typ host{}", rep(&|i| format!(" n{i} v{i}"))),
                format!("identity:{}", rep(&|_| "xy".into())),
            ] {
                v.push(Job { op: 'a', text: t });
            }
            v.push(Job { op: 'l', text: format!("m=application 9 DTLS/SCTP{}", rep(&|i| format!(" f{i}"))) });
            v.push(Job { op: 'l', text: format!("x={}", rep(&|i| format!(" f{i}"))) });
        }
        v
    })
}
fn job(i: usize) -> &'static Job {
    let n = jobs().len();
    if i < n {
        &jobs()[i]
    } else {
        &big()[i - n]
    }
}

pub enum Raw {
    Doc(Box<Result<webrtc_sdp::SdpSession, webrtc_sdp::error::SdpParserError>>, String),
    Attr(Box<Result<SdpAttribute, webrtc_sdp::error::SdpParserInternalError>>, String, String),
    Line(Box<Result<webrtc_sdp::SdpLine, webrtc_sdp::error::SdpParserError>>),
}
/// The calls into the library.
pub fn exec(j: &Job) -> Raw {
    match j.op {
        'a' => {
            let r = j.text.parse::<SdpAttribute>();
            let (p, m) = match &r {
                Ok(a) => (a.to_string(), a.masked_clone(&mut StatefulSdpAnonymizer::new()).to_string()),
                Err(e) => (e.to_string(), String::new()),
            };
            Raw::Attr(Box::new(r), p, m)
        }
        'l' => Raw::Line(Box::new(parse_sdp_line(&j.text, j.text.len()))),
        _ => {
            let r = parse_sdp(&j.text, j.op == 'S');
            let p = match &r {
                Ok(s) if j.op == 'M' => s.masked_clone(&mut StatefulSdpAnonymizer::new()).to_string(),
                Ok(s) => s.to_string(),
                Err(e) => e.to_string(),
            };
            Raw::Doc(Box::new(r), p)
        }
    }
}
/// Everything observable of the results.
pub fn describe(r: &Raw) -> String {
    let mut t = String::new();
    match r {
        Raw::Doc(r, p) => {
            let _ = writeln!(t, "{:?}\n{p}", proj::out(r));
            if let Ok(s) = &**r {
                for w in &s.warnings {
                    let _ = writeln!(t, "{w}");
                }
            }
        }
        Raw::Attr(r, p, m) => {
            let _ = match &**r {
                Ok(a) => writeln!(t, "{:?}", proj::attr(a)),
                Err(e) => writeln!(t, "{e:?}"),
            };
            let _ = writeln!(t, "{p}\n{m}");
        }
        Raw::Line(r) => {
            let _ = match &**r {
                Ok(l) => writeln!(t, "{:?} {}", proj::line(&l.sdp_type), l.line_number),
                Err(e) => writeln!(t, "{:?} {e}", proj::loc(e)),
            };
        }
    }
    t
}

fn numbers(x: &str) -> Vec<usize> {
    x.split(',').filter_map(|n| n.parse().ok()).collect()
}
/// `observe hash|text 1,2,3`: runs the jobs in this order in this process.
pub fn observe(a: &[String]) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let all = jobs();
    let s = |i: usize| a.get(i).map(String::as_str).unwrap_or("");
    let mut o = String::new();
    let seq: Vec<usize> = match s(1) {
        // x before and after every job
        "around" => {
            let x = s(2).parse().unwrap_or(0);
            (0..all.len()).flat_map(|y| [x, y]).collect()
        }
        "repeat" => {
            let (x, n): (usize, usize) = (s(2).parse().unwrap_or(0), s(3).parse().unwrap_or(1));
            std::iter::repeat_n(x, n).chain(0..all.len() + big().len()).collect()
        }
        "backwards" => (0..all.len() + big().len()).rev().collect(),
        t => numbers(t),
    };
    for i in seq {
        let d = describe(&exec(job(i)));
        if s(0) == "text" {
            let _ = writeln!(o, "{i} {}", js(&d));
        } else {
            let _ = writeln!(o, "{i} {:016x}", hash(&d));
        }
    }
    print!("{o}");
    0
}

/// The texts that differ from that of a job in one place, and those that a lossy key (a length, a
/// sum of the characters, a text without letter case, a part of the text) takes for the same.
fn edited(x: usize) -> impl Iterator<Item = Job> + DoubleEndedIterator {
    let j = &jobs()[x];
    let confused = confusable(&j.text);
    let n = text::edit_count(&j.text);
    (0..n + confused.len()).map(move |i| Job { op: j.op, text: if i < n { text::edit_at(&j.text, i) } else { confused[i - n].clone() } })
}
fn confusable(t: &str) -> Vec<String> {
    let c: Vec<char> = t.chars().collect();
    let n = c.len();
    let mut v: Vec<Vec<char>> = vec![];
    for i in 0..n {
        // a part of the text
        v.push(c[..i].to_vec());
        v.push(c[i..].to_vec());
        let mut w = c.clone();
        w[i] = if c[i].is_ascii_lowercase() { c[i].to_ascii_uppercase() } else { c[i].to_ascii_lowercase() };
        v.push(w);
        // the same characters, or the same sum of characters
        for k in i + 1..n.min(i + if n < 100 { n } else { 4 }) {
            let mut w = c.clone();
            w.swap(i, k);
            v.push(w);
            let step = |x: char, d: i32| char::from_u32((x as i32 + d) as u32).filter(char::is_ascii_graphic);
            for d in [-1, 1] {
                if let (Some(x), Some(y)) = (step(c[i], d), step(c[k], -d)) {
                    let mut w = c.clone();
                    (w[i], w[k]) = (x, y);
                    v.push(w);
                }
            }
        }
    }
    for k in [2, 3] {
        v.push(c.repeat(k));
    }
    v.push(c.iter().rev().copied().collect());
    v.push(c.iter().chain(&[' ']).copied().collect());
    let mut v: Vec<String> = v.into_iter().map(|w| w.into_iter().collect()).collect();
    v.retain(|w| w != t);
    v.sort();
    v.dedup();
    v
}
/// The result of every job in a process image of its own, in which nothing ran before it.
fn alone<'a>(all: impl ExactSizeIterator<Item = &'a Job>) -> Option<Vec<u64>> {
    extern "C" {
        fn fork() -> i32;
        fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
        fn _exit(code: i32) -> !;
        fn alarm(seconds: u32) -> u32;
        fn mmap(at: *mut u64, n: usize, prot: i32, flags: i32, fd: i32, offset: i64) -> *mut u64;
    }
    let n = all.len();
    // readable and writable, shared with the children, anonymous
    let m = unsafe { mmap(std::ptr::null_mut(), 8 * n.max(1), 3, 0x21, -1, 0) };
    if m as isize == -1 {
        return None;
    }
    let mut h = vec![];
    for (i, j) in all.enumerate() {
        unsafe {
            let pid = fork();
            if pid == 0 {
                alarm(20);
                m.add(i).write_volatile(hash(&describe(&exec(j))));
                _exit(0);
            }
            let mut status = 0;
            if pid < 0 || waitpid(pid, &mut status, 0) != pid || status != 0 {
                println!("{} has no result alone", js(&clip(&j.text, 300)));
                return None;
            }
            h.push(m.add(i).read_volatile());
        }
    }
    Some(h)
}
/// `edits x forward|backward`: every edited text of job x and, after each of them, job x itself;
/// forward: also each of them in a process image of its own.
pub fn edits(a: &[String]) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let x: usize = a.first().and_then(|x| x.parse().ok()).unwrap_or(0);
    let back = a.get(1).is_some_and(|x| x == "backward");
    let run = |j: &Job| hash(&describe(&exec(j)));
    let all: Vec<(usize, Job)> = if back { edited(x).enumerate().collect::<Vec<_>>().into_iter().rev().collect() } else { edited(x).enumerate().collect() };
    let mut own = vec![];
    if !back {
        match alone(all.iter().map(|x| &x.1)) {
            Some(o) => own = o,
            None => return 1,
        }
    }
    let first = run(&jobs()[x]);
    let mut h = vec![0; all.len()];
    for (i, j) in &all {
        h[*i] = run(j);
        if own.get(*i).is_some_and(|o| *o != h[*i]) {
            println!("{} gives another result after others than alone", js(&clip(&j.text, 300)));
            return 1;
        }
        let again = run(&jobs()[x]);
        if again != first {
            println!("after {} the job itself gives another result", js(&clip(&j.text, 300)));
            return 1;
        }
    }
    println!("{first:016x}");
    for x in h {
        println!("{x:016x}");
    }
    0
}

/// Inputs of one form that differ in one measure: a length, a number, a count, a name.
const FAMILIES: usize = 21;
fn family(f: usize) -> Vec<Job> {
    let mut len: Vec<usize> = (0..=20).chain([40, 100, 1000, 10_000, 100_000]).collect();
    for k in 5..=17 {
        len.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1]);
    }
    let j = |op, text: String| Job { op, text };
    let x = |n: usize| "x".repeat(n);
    let few: Vec<usize> = len.iter().copied().filter(|n| *n <= 600).collect();
    let one = |f: &dyn Fn(usize) -> String| few.iter().map(|n| (0..*n).map(f).collect::<String>()).collect::<Vec<_>>();
    match f {
        0 => len.iter().map(|n| j('a', format!("identity:{}", x(*n)))).collect(),
        1 => len.iter().map(|n| j('a', format!("foo:{}", x(*n)))).collect(),
        2 => len.iter().map(|n| j('l', format!("s={}", x(*n)))).collect(),
        3 => len.iter().map(|n| j('L', format!("v=0\r\no={} 1 2 IN IP4 1.1.1.1\r\ns=-\r\nt=0 0\r\nc=IN IP4 1.1.1.1\r\n", x(*n + 1)))).collect(),
        4 => len.iter().map(|n| j('S', format!("{HEAD}{MLINE}a=setup:{}\r\n", x(*n)))).collect(),
        5 => one(&|i| format!("a=mid:{i}\r\n")).iter().map(|t| j('L', format!("{HEAD}{MLINE}{t}"))).collect(),
        6 => one(&|i| format!("m=audio {i} RTP/AVP 0\r\n")).iter().map(|t| j('M', format!("{HEAD}{t}"))).collect(),
        7 => one(&|i| format!("a=foo{i}\r\n")).iter().map(|t| j('L', format!("{HEAD}{MLINE}{t}"))).collect(),
        8 => one(&|_| "\r\n".into()).iter().map(|t| j('L', format!("{HEAD}{t}a=setup:x\r\n"))).collect(),
        9 => nums().iter().map(|n| j('a', format!("ptime:{n}"))).collect(),
        10 => nums().iter().map(|n| j('a', format!("ssrc:{n} cname:c{n}"))).collect(),
        11 => (0..=127).map(|n| j('a', format!("rtpmap:{n} c{n}/8000"))).collect(),
        12 => (0..=127).map(|n| j('l', format!("m=video {n} RTP/AVP {n}"))).collect(),
        13 => HOSTS.iter().chain(BAD_HOSTS).map(|h| j('a', format!("candidate:1 1 UDP 5 {h} 9 typ host"))).collect(),
        14 => HOSTS.iter().chain(BAD_HOSTS).map(|h| j('l', format!("c=IN IP{} {h}", if h.contains(':') { 6 } else { 4 }))).collect(),
        15 => WORDS.iter().map(|w| j('a', w.to_string())).collect(),
        16 => WORDS.iter().step_by(3).map(|w| j('L', format!("{HEAD}{MLINE}a=mid:{w}\r\na=rid:{w} send\r\na=simulcast:send {w}\r\n"))).collect(),
        // the length of the whole text
        17 => len.iter().filter(|n| **n > 9).map(|n| j('a', format!("identity:{}", x(*n - 9)))).collect(),
        18 => len.iter().filter(|n| **n > 9).map(|n| j('l', format!("a=foobar:{}", x(*n - 9)))).collect(),
        19 => len.iter().filter(|n| **n > 58).map(|n| j('L', format!("v=0\r\no={} 1 2 IN IP4 1.1.1.1\r\ns=-\r\nt=0 0\r\nc=IN IP4 1.1.1.1\r\n", x(*n - 58)))).collect(),
        f if f > 20 => alike(f - FAMILIES),
        // some of each
        _ => (0..20)
            .flat_map(|f| {
                let v = family(f);
                let s = v.len().div_ceil(9);
                v.into_iter().step_by(s)
            })
            .collect(),
    }
}
/// The texts with every word of a sample in turn replaced by `{}`.
fn slots() -> &'static [Job] {
    static J: OnceLock<Vec<Job>> = OnceLock::new();
    J.get_or_init(|| {
        let mut v = vec![];
        let s = samples();
        let all = s.iter().map(|a| ('a', a.as_str())).chain(LINE_SAMPLES.iter().map(|l| ('l', *l)));
        for (op, t) in all {
            let b = t.as_bytes();
            let mut i = 0;
            let skip = t.find(if op == 'a' { ':' } else { '=' }).map_or(t.len(), |i| i + 1);
            while i < b.len() {
                let k = (i..b.len()).find(|k| !b[*k].is_ascii_alphanumeric()).unwrap_or(b.len());
                if k > i && i >= skip {
                    v.push(Job { op, text: format!("{}{{}}{}", &t[..i], &t[k..]) });
                }
                i = k.max(i) + 1;
                while i < b.len() && !t.is_char_boundary(i) {
                    i += 1;
                }
            }
        }
        v.sort_by(|a, b| (a.op, &a.text).cmp(&(b.op, &b.text)));
        v.dedup_by(|a, b| a.op == b.op && a.text == b.text);
        v
    })
}
/// Long words, and long numbers, that differ in one place, in one slot.
fn alike(f: usize) -> Vec<Job> {
    let s = &slots()[f % slots().len()];
    let mut v = vec![];
    for (base, other) in [("abcdefghijklm", 'x'), ("123456789", '4'), ("abcdefghijklmnopqrstuvwxyzabcdefghijklmno", 'Q')] {
        for i in 0..=base.len() {
            let w: String = base.chars().enumerate().map(|(k, c)| if k == i { other } else { c }).collect();
            v.push(Job { op: s.op, text: s.text.replace("{}", &w) });
        }
    }
    v
}
/// `sizes f forward|backward`: all ordered pairs of a family in one process.
pub fn sizes(a: &[String]) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let v = family(a.first().and_then(|x| x.parse().ok()).unwrap_or(0));
    let run = |j: &Job| hash(&describe(&exec(j)));
    let n = v.len();
    let mut h = vec![0; n];
    let back = a.get(1).is_some_and(|x| x == "backward");
    let Some(own) = alone(v.iter()) else { return 1 };
    for i in 0..n {
        let i = if back { n - 1 - i } else { i };
        h[i] = run(&v[i]);
        if h[i] != own[i] {
            println!("{} gives another result after others than alone", js(&clip(&v[i].text, 300)));
            return 1;
        }
    }
    for i in 0..n {
        for k in 0..n {
            for x in if back { [k, i] } else { [i, k] } {
                if run(&v[x]) != h[x] {
                    println!("{} gives another result, close to {}", js(&clip(&v[x].text, 300)), js(&clip(&v[if x == i { k } else { i }].text, 300)));
                    return 1;
                }
            }
        }
    }
    for x in h {
        println!("{x:016x}");
    }
    0
}

/// `threads a b bound hash_a hash_b budget`: all schedules of the two jobs up to the preemption bound.
pub fn threads(a: &[String]) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let s = |i: usize| a.get(i).map(String::as_str).unwrap_or("");
    let all = jobs();
    let ix = [s(0).parse().unwrap_or(0usize), s(1).parse().unwrap_or(0usize)];
    let bound: usize = s(2).parse().unwrap_or(1);
    let want = [s(3), s(4)];
    let budget: usize = s(5).parse().unwrap_or(usize::MAX);
    sched::logging();
    // one body: a chain of jobs
    let chains: Vec<Vec<&Job>> = [s(6), s(7)]
        .iter()
        .zip(ix)
        .map(|(more, i)| std::iter::once(i).chain(numbers(more)).map(|n| &all[n]).collect())
        .collect();
    let body = |c: &'_ [&Job]| c.iter().map(|j| exec(j)).collect::<Vec<Raw>>();
    let (b0, b1) = (|| body(&chains[0]), || body(&chains[1]));
    let (mut schedules, mut switches, mut blocked, mut points) = (0u64, 0u64, 0u64, [0usize; 2]);
    let mut one = |first: usize, plan: &[usize]| -> Result<[usize; 2], String> {
        // after a number of blocked schedules, the waiting for them is cut short
        let limit = Duration::from_millis(if blocked < 10 { 200 } else if blocked < 60 { 10 } else { 1 });
        let r = sched::run([&b0, &b1], first, plan, limit);
        schedules += 1;
        switches += r.switches as u64;
        blocked += u64::from(r.blocked);
        for i in 0..2 {
            let got = match &r.results[i] {
                Some(x) => format!("{:016x}", hash(&x.iter().map(describe).collect::<String>())),
                None => "panic".into(),
            };
            if got != want[i] {
                return Err(format!(
                    "thread {i} ({} {}) gives another result when thread {first} starts and the threads switch after {plan:?} points: {}",
                    chains[i][0].op,
                    js(&clip(&chains[i][0].text, 200)),
                    r.results[i].as_ref().map(|x| clip(&x.iter().map(describe).collect::<String>(), 300)).unwrap_or("panic".into())
                ));
            }
        }
        Ok(r.points)
    };
    let mut complete = true;
    let r = (|| -> Result<(), String> {
        points = one(0, &[])?;
        one(1, &[])?;
        for first in 0..2 {
            let (n, m) = (points[first], points[1 - first]);
            for i in 1..=n {
                one(first, &[i])?;
            }
            if bound < 2 {
                continue;
            }
            // thin out the second switch if the product is over the budget
            let step = (n * m).div_ceil(budget.max(1)).max(1);
            complete &= step == 1;
            for i in 1..=n {
                let mut j = 1 + i % step;
                while j <= m {
                    one(first, &[i, j])?;
                    j += step;
                }
            }
        }
        Ok(())
    })();
    println!("schedules {schedules} switches {switches} blocked {blocked} points {} {} complete {}", points[0], points[1], u8::from(complete));
    match r {
        Ok(()) => 0,
        Err(why) => {
            println!("{why}");
            1
        }
    }
}

fn own(args: &[&str], odd: bool) -> Result<String, String> {
    let me = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut c = Command::new(me);
    c.args(args).stderr(Stdio::null());
    if odd {
        c.env_clear().env("LANG", "tr_TR.UTF-8").env("LC_ALL", "tr_TR.UTF-8").env("TZ", "Asia/Kolkata").env("RUST_LOG", "trace").env("HOME", "/nonexistent");
        c.current_dir("/");
    }
    let o = c.output().map_err(|e| e.to_string())?;
    let t = String::from_utf8_lossy(&o.stdout).to_string();
    match o.status.code() {
        Some(0) => Ok(t),
        Some(1) => Err(t),
        _ => Err(format!("ends with {}: {t}", o.status)),
    }
}
/// What a job gives in a process of its own.
fn baseline(i: usize) -> Result<String, String> {
    static B: Mutex<BTreeMap<usize, String>> = Mutex::new(BTreeMap::new());
    if let Some(x) = B.lock().unwrap().get(&i) {
        return Ok(x.clone());
    }
    let n = i.to_string();
    let a = own(&["observe", "hash", &n], false)?;
    let h = a.trim().split(' ').nth(1).unwrap_or("").to_string();
    B.lock().unwrap().insert(i, h.clone());
    Ok(h)
}
fn chain_hash(c: &[usize]) -> Result<String, String> {
    // the hash of the joined transcripts, each from a process of its own
    let mut t = String::new();
    for i in c {
        let x = own(&["observe", "text", &i.to_string()], false)?;
        t.push_str(&unjs(x.trim().split_once(' ').map(|y| y.1).unwrap_or("")));
    }
    Ok(format!("{:016x}", hash(&t)))
}
fn unjs(x: &str) -> String {
    let mut o = String::new();
    let mut it = x.trim_matches(|c| c == '\n').chars().skip(1).peekable();
    while let Some(c) = it.next() {
        match c {
            '"' if it.peek().is_none() => break,
            '\\' => match it.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some('t') => o.push('\t'),
                Some('u') => {
                    let h: String = it.by_ref().take(4).collect();
                    o.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
                }
                Some(c) => o.push(c),
                None => {}
            },
            c => o.push(c),
        }
    }
    o
}
fn same_as_alone(text: &str, args: &[&str]) -> Verdict {
    let mut n = 0u64;
    for (k, l) in text.lines().enumerate() {
        let (i, h) = l.split_once(' ').ok_or("odd output")?;
        let i: usize = i.parse().map_err(|_| "odd output")?;
        n += 1;
        state(&(i, h));
        if baseline(i)? != h {
            let j = job(i);
            let mut v = args.to_vec();
            v[1] = "text";
            let t = own(&v, false)?;
            let got = unjs(t.lines().nth(k).and_then(|l| l.split_once(' ')).map(|x| x.1).unwrap_or(""));
            let want = own(&["observe", "text", &i.to_string()], false)?;
            let want = unjs(want.trim().split_once(' ').map(|x| x.1).unwrap_or(""));
            return Err(format!(
                "operation {} on {} as call number {k} of the process gives {} instead of {}",
                j.op,
                js(&clip(&j.text, 300)),
                js(&clip(&got, 600)),
                js(&clip(&want, 600))
            ));
        }
    }
    if n == 0 {
        return Err("no output".into());
    }
    trans(n);
    Ok("same")
}

impl Check for History {
    fn id(&self) -> &'static str {
        "C23"
    }
    fn rule(&self) -> &'static str {
        "the result of every job (parse strictly or leniently and print, parse and mask, single attribute, single line) in a process of its own is the \
         reference; all ordered pairs (and triples) of core jobs in one new process, every job before and after every other job in one process, \
         long repetitions of every core job before all jobs, other environments; all ordered pairs within 21 families of inputs that differ in one measure (length, \
         number, count, host, name), and of long words and numbers that differ in one place, in every slot of every sample; every single edit of the texts, each in a process image of its own and all of them in both orders with the text itself after each; all schedules of two threads under a controlled scheduler with \
         yield points at every heap operation, log call and atomic access of the library, up to one preemption for all pairs of core jobs and two for a subset"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "memory accesses between two heap operations, log calls or atomic accesses (LLVM's tsan pass turns these into calls of the scheduler, in the \
             crate alone) are executed as one step; data races below this granularity are excluded by the type system as long as the crate has no \
             unsafe code; atomic accesses are explored as sequentially consistent",
            "a schedule in which a thread is preempted inside a critical section that the other one needs runs on without control",
        ]
    }
    fn must_see(&self) -> Vec<&'static str> {
        vec!["same", "same-in-all-schedules"]
    }
    fn explore(&self, e: &Engine) {
        let (nc, n) = (core().len(), jobs().len());
        e.note("jobs", format!("{nc} core jobs, {n} in total; operations {OPS:?}"));
        e.sweep("env", "every job in a new process, three times and with another environment", n + big().len(), |i| i.to_string());
        e.sweep("seq", "all ordered pairs of core jobs, each in a new process", nc * nc, |i| format!("{},{}", i / nc, i % nc));
        e.sweep("around", "every job before and after every other job", n, |i| i.to_string());
        let reps: &[usize] = e.pick(&[300][..], &[2, 10, 100, 300, 1000, 5000, 70000][..]);
        e.sweep("repeat", &format!("every core job repeated {reps:?} times, then all jobs"), nc * reps.len(), |i| {
            format!("{},{}", i % nc, reps[i / nc])
        });
        let nb = big().len();
        let reps: &[usize] = e.pick(&[1, 30][..], &[1, 5, 30, 300][..]);
        e.sweep("repeat", &format!("every job with a long input repeated {reps:?} times, then all jobs"), nb * reps.len(), |i| {
            format!("{},{}", n + i % nb, reps[i / nb])
        });
        e.list("backwards", "all jobs in the opposite order", vec!["".into()]);
        if e.thorough() {
            let few: Vec<usize> = (0..nc).step_by(2).collect();
            let k = few.len();
            e.sweep("seq", "all ordered triples of every second core job", k * k * k, |i| {
                format!("{},{},{}", few[i / k / k], few[i / k % k], few[i % k])
            });
        }
        if e.violated() {
            return;
        }
        let short = |i: &usize| jobs()[*i].text.len() < e.pick(400, 4000);
        let some: Vec<usize> = (0..nc).chain((nc..n).filter(|i| jobs()[*i].op != 'L' && jobs()[*i].op != 'M')).filter(short).collect();
        e.sweep("edits", "after every single edit of a text, the text itself; all edits in both orders", some.len(), |i| some[i].to_string());
        e.sweep("sizes", "families of inputs that differ in one measure: all ordered pairs in one process, in both orders", FAMILIES, |i| i.to_string());
        e.sweep("sizes", "long words and numbers that differ in one place, in every place of every sample: all ordered pairs in one process, in both orders", slots().len(), |i| (FAMILIES + i).to_string());
        // the schedules take much longer when calls depend on each other, and would add nothing
        if e.violated() {
            return;
        }
        // two calls of one kind next to each other
        let name = |i: usize| (jobs()[i].op, jobs()[i].text.split([':', '=']).next().unwrap_or("").to_string());
        let mut same = vec![];
        for a in 0..n {
            if matches!(jobs()[a].op, 'a' | 'l') {
                same.extend((0..n).filter(|b| name(*b) == name(a) && (e.thorough() || *b < a + 4 && a < *b + 3)).map(|b| (a, b)));
            }
        }
        e.sweep("threads", "all schedules with one preemption of pairs of jobs of one attribute or line type", same.len(), |i| format!("{},{},1,1", same[i].0, same[i].1));
        let t: Vec<usize> = (0..nc).step_by(e.pick(3, 1)).collect();
        let k = t.len();
        e.sweep("threads", "all schedules with one preemption of pairs of core jobs", k * k, |i| format!("{},{},1,1", t[i / k], t[i % k]));
        let t: Vec<usize> = (0..nc).step_by(e.pick(9, 2)).collect();
        let k = t.len();
        let budget = e.pick(3000, 15000);
        e.sweep("threads", &format!("schedules with two preemptions, at most about {budget} per pair and first thread"), k * k, |i| {
            format!("{},{},2,{budget}", t[i / k], t[i % k])
        });
        // several calls per thread: the preemption may fall between the calls too
        let t: Vec<usize> = [0, 1, 2, 4, 7, 9, 28, 41, 44].into();
        let k = t.len();
        e.sweep("chains", "two calls per thread, one preemption", if e.thorough() { k * k * k * k } else { k * k * k }, |i| {
            format!("{},{},1,1,{},{}", t[i % k], t[i / k % k], t[i / k / k % k], t[if e.thorough() { i / k / k / k } else { (i / k + i) % k }])
        });
    }
    fn decide(&self, kind: &str, x: &str) -> Verdict {
        trace();
        match kind {
            "env" => {
                let i: usize = x.parse().map_err(|_| "bad case")?;
                let b = baseline(i)?;
                for odd in [false, false, true] {
                    trans(1);
                    let r = own(&["observe", "hash", x], odd)?;
                    if r.trim().split(' ').nth(1) != Some(&b) {
                        return Err(format!("another new process (other environment: {odd}) gives another result for {}", clip(&format!("{:?}", job(i)), 600)));
                    }
                }
                Ok("same")
            }
            "edits" => {
                let i: usize = x.parse().map_err(|_| "bad case")?;
                let say = |w: String| format!("{w}, for {:?}", jobs()[i]);
                let f = own(&["edits", x, "forward"], false).map_err(say)?;
                let b = own(&["edits", x, "backward"], false).map_err(say)?;
                if f.lines().next() != Some(&baseline(i)?) {
                    return Err(say("another result than alone".into()));
                }
                let n = f.lines().count();
                if let Some(k) = f.lines().zip(b.lines()).position(|(x, y)| x != y) {
                    return Err(format!("{:?} gives another result after other texts", edited(i).nth(k.max(1) - 1)));
                }
                if n < 2 || n != b.lines().count() {
                    return Err(say("odd output".into()));
                }
                trans(5 * n as u64);
                for h in f.lines() {
                    state(&(i, h));
                }
                Ok("same")
            }
            "sizes" => {
                let f = own(&["sizes", x, "forward"], false)?;
                let b = own(&["sizes", x, "backward"], false)?;
                let n = f.lines().count() as u64;
                if n == 0 || f != b {
                    return Err(format!("family {x}: other results in the other order"));
                }
                trans(4 * n * n);
                for h in f.lines() {
                    state(&(x, h));
                }
                Ok("same")
            }
            "seq" | "around" | "repeat" | "backwards" => {
                let p: Vec<&str> = x.split(',').collect();
                let args: Vec<&str> = match kind {
                    "seq" => vec!["observe", "hash", x],
                    "around" => vec!["observe", "hash", "around", x],
                    "backwards" => vec!["observe", "hash", "backwards"],
                    _ => vec!["observe", "hash", "repeat", p[0], p.get(1).copied().unwrap_or("1")],
                };
                same_as_alone(&own(&args, false)?, &args)
            }
            _ => {
                let p: Vec<&str> = x.split(',').collect();
                let g = |i: usize| p.get(i).copied().unwrap_or("");
                let chain = |a: usize, b: usize| -> Vec<usize> { [a, b].iter().filter_map(|i| g(*i).parse().ok()).collect() };
                let (h0, h1) = (chain_cached(&chain(0, 4))?, chain_cached(&chain(1, 5))?);
                let o = own(&["threads", g(0), g(1), g(2), &h0, &h1, g(3), g(4), g(5)], false)?;
                let w: Vec<&str> = o.split_whitespace().collect();
                let num = |i: usize| w.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
                let (schedules, switches, blocked) = (num(1), num(3), num(5));
                if schedules == 0 {
                    return Err("no schedule was run".into());
                }
                trans(switches + 2 * schedules);
                for s in 0..schedules {
                    state(&(x, s));
                }
                if num(7) == 0 || num(8) == 0 {
                    return Err("the scheduler saw no yield point".into());
                }
                Ok(match (blocked > 0, num(10)) {
                    (true, _) => "same-some-schedules-uncontrolled",
                    (_, 1) => "same-in-all-schedules",
                    _ => "same-in-thinned-schedules",
                })
            }
        }
    }
}
fn chain_cached(c: &[usize]) -> Result<String, String> {
    static B: Mutex<BTreeMap<Vec<usize>, String>> = Mutex::new(BTreeMap::new());
    if let Some(x) = B.lock().unwrap().get(c) {
        return Ok(x.clone());
    }
    let h = chain_hash(c)?;
    B.lock().unwrap().insert(c.to_vec(), h.clone());
    Ok(h)
}
