//! C17: every numeric field stores exactly the integers of its range and refuses all others.
use super::*;
use crate::alpha::*;
use crate::refparse::{U16, U32, U64, U8};

#[derive(Clone, Copy, PartialEq)]
enum As {
    Num,
    Flag,
    Float,
    Text,
    Hex,
}
struct Field {
    text: &'static str,
    lo: u128,
    hi: u128,
    holes: fn(u128) -> bool,
    path: &'static [usize],
    how: As,
}
const fn f(text: &'static str, hi: u128, path: &'static [usize]) -> Field {
    Field { text, lo: 0, hi, holes: none, path, how: As::Num }
}
const fn b(text: &'static str, path: &'static [usize]) -> Field {
    Field { text, lo: 0, hi: 1, holes: none, path, how: As::Flag }
}
const fn none(_: u128) -> bool {
    false
}
fn reserved(n: u128) -> bool {
    matches!(n, 1 | 2 | 19 | 64..=95)
}

/// One line text per numeric field, its range, and where the value is found in the model tree.
static FIELDS: &[Field] = &[
    f("v={}", 0, &[0]),
    f("o=- {} 1 IN IP4 1.2.3.4", U64, &[0, 1]),
    f("o=- 1 {} IN IP4 1.2.3.4", U64, &[0, 2]),
    f("t={} 3", U64, &[0, 0]),
    f("t=3 {}", U64, &[0, 1]),
    f("c=IN IP4 224.0.0.1/{}", U8, &[0, 1, 0]),
    f("c=IN IP4 224.0.0.1/{}/3", U8, &[0, 1, 0]),
    f("c=IN IP4 224.0.0.1/3/{}", U32, &[0, 2, 0]),
    f("c=IN IP4 host.example/{}", U8, &[0, 1, 0]),
    f("c=IN IP6 ff02::1/4/{}", U32, &[0, 2, 0]),
    f("b=AS:{}", U32, &[0, 0]),
    f("b=CT:{}", U32, &[0, 0]),
    f("b=TIAS:{}", U32, &[0, 0]),
    f("b=X:{}", U32, &[0, 1]),
    f("m=audio {} RTP/AVP 0", 65535, &[0, 1]),
    f("m=application {} DTLS/SCTP 0", 65535, &[0, 1]),
    f("m=video {}/2 RTP/AVP 0", 65535, &[0, 1]),
    f("m=audio 9/{} RTP/AVP 0", U32, &[0, 2]),
    f("m=application 9/{} DTLS/SCTP 0", U32, &[0, 2]),
    Field { text: "m=audio 9 RTP/AVP {}", lo: 0, hi: 127, holes: reserved, path: &[0, 4, 0, 0], how: As::Num },
    Field { text: "m=video 9 RTP/AVP 8 {} 9", lo: 0, hi: 127, holes: reserved, path: &[0, 4, 0, 1], how: As::Num },
    Field { text: "m=video 9 RTP/AVP 8 9 3 {}", lo: 0, hi: 127, holes: reserved, path: &[0, 4, 0, 3], how: As::Num },
    f("a=candidate:1 {} UDP 5 1.2.3.4 9 typ host", U32, &[0, 1]),
    f("a=candidate:1 1 UDP {} 1.2.3.4 9 typ host", U64, &[0, 3]),
    f("a=candidate:1 1 UDP 5 1.2.3.4 {} typ host", 65535, &[0, 5]),
    f("a=candidate:1 1 UDP 5 1.2.3.4 9 typ srflx raddr 1.2.3.4 rport {}", 65535, &[0, 8, 0]),
    f("a=candidate:1 1 TCP 5 1.2.3.4 9 typ srflx rport {} tcptype so", 65535, &[0, 8, 0]),
    f("a=candidate:1 1 UDP 5 1.2.3.4 9 typ host generation {}", U32, &[0, 10, 0]),
    f("a=candidate:1 1 UDP 5 1.2.3.4 9 typ host network-cost {}", U32, &[0, 12, 0]),
    f("a=remote-candidates:{} 1.2.3.4 9", U32, &[0, 0]),
    f("a=remote-candidates:1 1.2.3.4 {}", 65535, &[0, 2]),
    f("a=rtcp:{}", U16, &[0, 0]),
    f("a=rtcp:{} IN IP4 1.2.3.4", U16, &[0, 0]),
    Field { text: "a=ice-pacing:{}", lo: 0, hi: 9_999_999_999, holes: none, path: &[0, 0], how: As::Num },
    f("a=sctpmap:{} webrtc-datachannel 5", U16, &[0, 0]),
    f("a=sctpmap:5 webrtc-datachannel {}", U32, &[0, 1]),
    f("a=sctp-port:{}", 65535, &[0, 0]),
    f("a=max-message-size:{}", U64, &[0, 0]),
    f("a=rtpmap:{} opus/48000", 127, &[0, 0]),
    f("a=rtpmap:{} opus/48000/2", 127, &[0, 0]),
    f("a=rtpmap:5 opus/{}", U32, &[0, 2]),
    f("a=rtpmap:5 opus/{}/2", U32, &[0, 2]),
    f("a=rtpmap:5 opus/48000/{}", U32, &[0, 3, 0]),
    f("a=rtcp-fb:{} nack", U8, &[0, 0]),
    f("a=rtcp-fb:{} ccm fir", U8, &[0, 0]),
    Field { text: "a=rtcp-fb:5 trr-int {}", lo: 0, hi: U32, holes: none, path: &[0, 2], how: As::Text },
    f("a=extmap:{} urn:x", U16, &[0, 0]),
    f("a=extmap:{}/sendonly urn:x y z", U16, &[0, 0]),
    f("a=ptime:{}", U64, &[0, 0]),
    f("a=maxptime:{}", U64, &[0, 0]),
    Field { text: "a=framerate:{}", lo: 1, hi: 1 << 53, holes: none, path: &[0, 0], how: As::Float },
    f("a=fmtp:{} x=1", U8, &[0, 0]),
    f("a=fmtp:{} 0-15", U8, &[0, 0]),
    f("a=fmtp:{} 1/2", U8, &[0, 0]),
    f("a=fmtp:96 packetization-mode={};x=1", 2, &[0, 1, 0]),
    Field { text: "a=fmtp:96 profile-level-id={};x=1", lo: 0, hi: 0xff_ffff, holes: none, path: &[0, 1, 2], how: As::Hex },
    f("a=fmtp:96 max-fs={};x=1", U32, &[0, 1, 3]),
    f("a=fmtp:96 max-cpb={};x=1", U32, &[0, 1, 4]),
    f("a=fmtp:96 max-dpb={};x=1", U32, &[0, 1, 5]),
    f("a=fmtp:96 max-br={};x=1", U32, &[0, 1, 6]),
    f("a=fmtp:96 max-mbps={};x=1", U32, &[0, 1, 7]),
    f("a=fmtp:96 x=1;max-fr={}", U32, &[0, 1, 8]),
    f("a=fmtp:96 profile={}", 2, &[0, 1, 9, 0]),
    f("a=fmtp:96 level-idx={}", 31, &[0, 1, 10, 0]),
    f("a=fmtp:96 tier={}", 1, &[0, 1, 11, 0]),
    f("a=fmtp:96 maxplaybackrate={};x=1", U32, &[0, 1, 12]),
    f("a=fmtp:96 maxaveragebitrate={};x=1", U32, &[0, 1, 13]),
    f("a=fmtp:96 ptime={};x=1", U32, &[0, 1, 18]),
    f("a=fmtp:96 minptime={};x=1", U32, &[0, 1, 19]),
    f("a=fmtp:96 maxptime={};x=1", U32, &[0, 1, 20]),
    b("a=fmtp:96 level-asymmetry-allowed={};x=1", &[0, 1, 1]),
    b("a=fmtp:96 usedtx={};x=1", &[0, 1, 14]),
    b("a=fmtp:96 stereo={};x=1", &[0, 1, 15]),
    b("a=fmtp:96 useinbandfec={};x=1", &[0, 1, 16]),
    b("a=fmtp:96 cbr={};x=1", &[0, 1, 17]),
    f("a=fmtp:96 apt={}", U8, &[0, 1, 23, 0, 0]),
    f("a=fmtp:96 apt=5;rtx-time={}", U32, &[0, 1, 23, 0, 1, 0]),
    f("a=fmtp:96 apt={};rtx-time=9", U8, &[0, 1, 23, 0, 0]),
    f("a=fmtp:96 {}/5", 128, &[0, 1, 21, 0]),
    f("a=fmtp:96 5/{}", 128, &[0, 1, 21, 1]),
    f("a=fmtp:96 5/6/{}/7", 128, &[0, 1, 21, 2]),
    f("a=rid:a send pt={}", 65535, &[0, 2, 0]),
    f("a=rid:a send pt=5,{}", 65535, &[0, 2, 1]),
    f("a=rid:a send max-width={}", U32, &[0, 3, 0]),
    f("a=rid:a send max-height={}", U32, &[0, 3, 1]),
    f("a=rid:a send max-fps={}", U32, &[0, 3, 2]),
    f("a=rid:a send max-fs={}", U32, &[0, 3, 3]),
    f("a=rid:a send pt=5;max-br={};x=y", U32, &[0, 3, 4]),
    f("a=rid:a recv max-pps={};depends=z", U32, &[0, 3, 5]),
    f("a=imageattr:{} send *", U8, &[0, 0]),
    f("a=imageattr:9 send [x={},y=2]", U32, &[0, 1, 0, 0, 0, 0]),
    f("a=imageattr:9 send [x=2,y={}]", U32, &[0, 1, 0, 1, 0, 0]),
    f("a=imageattr:9 recv [x=[{}:7],y=2]", U32, &[0, 2, 0, 0, 0]),
    f("a=imageattr:9 recv [x=[7:{}],y=2]", U32, &[0, 2, 0, 0, 1]),
    f("a=imageattr:9 recv [x=[7:{}:9],y=2]", U32, &[0, 2, 0, 0, 2, 0]),
    f("a=imageattr:9 recv [x=7,y=[1:2:{}]]", U32, &[0, 2, 0, 1, 1]),
    f("a=imageattr:9 recv [x=[1,{},2],y=7]", U32, &[0, 2, 0, 0, 0, 1]),
    f("a=ssrc:{}", U32, &[0, 0]),
    f("a=ssrc:{} cname:x", U32, &[0, 0]),
    f("a=ssrc-group:FID {} 7", U32, &[0, 1, 0, 0]),
    f("a=ssrc-group:SIM 7 {}", U32, &[0, 1, 1, 0]),
    f("a=ssrc-group:SIM 7 8 {} 9", U32, &[0, 1, 2, 0]),
];

fn set(v: &mut V, path: &[usize], x: V) -> bool {
    match path.split_first() {
        None => {
            *v = x;
            true
        }
        Some((i, rest)) => match v {
            T(_, k) | L(k) => match k.get_mut(*i) {
                Some(y) => set(y, rest, x),
                None => false,
            },
            _ => false,
        },
    }
}

pub struct Numbers;
pub static C17: Numbers = Numbers;

impl Check for Numbers {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "every numeric field (table of 105) with every integer 0..=70000 and every integer of a boundary table \
         around all powers of two and ten; an integer of the range must be accepted and be found at its place \
         with every other value unchanged, any other token must be refused"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the table of ranges in mc/src/checks/numbers.rs is the specification"]
    }
    fn must_see(&self) -> Vec<&'static str> {
        vec!["stored", "refused"]
    }
    fn explore(&self, e: &Engine) {
        e.note("fields", FIELDS.len());
        let top = e.pick(70_001usize, 1_050_001);
        e.sweep("num", "every field x every integer below the top", FIELDS.len() * top, |i| {
            format!("{}\n{}", FIELDS[i / top].text, i % top)
        });
        let mut toks = nums();
        for bits in [8u32, 16, 24, 31, 32, 33, 48, 53, 63, 64, 65, 96, 127] {
            let p = 1u128 << bits;
            let w = e.pick(600u128, 20_000);
            for d in 0..=w {
                toks.push((p - 1).saturating_sub(d).to_string());
                toks.push((p + d).to_string());
            }
        }
        for d in 1..40usize {
            for c in ["1", "9", "4", "6", "2"] {
                toks.push(c.repeat(d));
                toks.push(format!("{c}{}", "0".repeat(d)));
            }
        }
        for n in [9_999_999_990u128, 99_999_999_990] {
            for d in 0..20 {
                toks.push((n + d).to_string());
            }
        }
        // every negative number of the small kinds, and every number with junk around
        for n in [0u32, 1, 5, 9, 97, 127, 128, 255, 256, 65535, 65536, 4294967295] {
            for j in ["-{}", "{}x", "x{}", "{}.0", "{}e0", "0x{}", "{}_", "_{}", "{}%", "#{}", "{}!"] {
                toks.push(j.replace("{}", &n.to_string()));
            }
        }
        // separators make two tokens of one
        toks.retain(|t| !t.contains([',', ';']));
        toks.sort();
        toks.dedup();
        e.sweep("num", "every field x the boundary table", FIELDS.len() * toks.len(), |i| {
            format!("{}\n{}", FIELDS[i / toks.len()].text, toks[i % toks.len()])
        });
        let pad = e.pick(60usize, 400);
        e.sweep("num", "every field x leading zeros", FIELDS.len() * pad * 4, |i| {
            let (fi, r) = (i / (pad * 4), i % (pad * 4));
            let fld = &FIELDS[fi];
            let n = [fld.lo, fld.hi, fld.hi / 2, 1][r % 4];
            format!("{}\n{}{n}", fld.text, "0".repeat(1 + r / 4))
        });
    }
    fn decide(&self, _: &str, payload: &str) -> Verdict {
        let (text, tok) = payload.split_once('\n').ok_or("bad case")?;
        let fld = FIELDS.iter().find(|f| f.text == text).ok_or("unknown field")?;
        let line = text.replace("{}", tok);
        let got = proj::parse_line(&line);
        trans(1);
        trace();
        state(&got);
        let digits = |radix: u32| {
            if tok.is_empty() || !tok.chars().all(|c| c.is_digit(radix)) {
                return None;
            }
            let mut v = 0u128;
            for c in tok.chars() {
                v = v.saturating_mul(u128::from(radix)).saturating_add(u128::from(c.to_digit(radix).unwrap()));
            }
            Some(v)
        };
        let n = digits(if fld.how == As::Hex { 16 } else { 10 });
        let inside = n.is_some_and(|n| n >= fld.lo && n <= fld.hi && !(fld.holes)(n));
        if fld.how == As::Float && !inside && tok.chars().any(|c| !c.is_ascii_digit()) {
            // other decimal notations are the subject of C13
            return Ok("decimal");
        }
        if fld.how == As::Float && n.is_some_and(|n| n > fld.hi) {
            return Ok("decimal");
        }
        match (inside, got) {
            (false, Err(_)) => Ok("refused"),
            (false, Ok(v)) => Err(format!("{line:?}: {tok} is outside the range {}..={}, but gives {v:?}", fld.lo, fld.hi)),
            (true, Err(c)) => Err(format!("{line:?}: {tok} is in the range {}..={}, but is refused ({c:?})", fld.lo, fld.hi)),
            (true, Ok(v)) => {
                let n = n.unwrap();
                let want = match fld.how {
                    As::Num | As::Hex => U(n),
                    As::Flag => B(n == 1),
                    As::Float => fl(n as f64),
                    As::Text => s(tok),
                };
                let mut base = proj::parse_line(&text.replace("{}", &fld.lo.to_string()))
                    .map_err(|_| format!("{text}: the lowest value is refused"))?;
                if !set(&mut base, fld.path, want.clone()) {
                    return Err(format!("{line:?}: no value where {want:?} is expected: {v:?}"));
                }
                if base == v {
                    Ok("stored")
                } else {
                    Err(format!("{line:?}: expected {base:?}, found {v:?}"))
                }
            }
        }
    }
}
