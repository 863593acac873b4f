//! C25: attributes built through the public fields and constructors, printed and read back.
use super::roundtrip::attr_round;
use super::*;
use crate::refparse::name_of;
use std::net::IpAddr;
use std::sync::OnceLock;
use webrtc_sdp::address::{Address, AddressType, ExplicitlyTypedAddress};
use webrtc_sdp::attribute_type::SdpAttribute as A;
use webrtc_sdp::attribute_type::*;

pub struct Built;
pub static C25: Built = Built;

/// A source of choices: every field of a value asks for one of its alternatives, the first is the default.
pub struct P<'a> {
    picks: &'a [usize],
    radix: Vec<usize>,
    /// Long tables of numbers.
    dense: bool,
}
/// Every number up to a bound and around every power of two and ten.
fn dense_numbers() -> &'static [u64] {
    static D: OnceLock<Vec<u64>> = OnceLock::new();
    D.get_or_init(|| {
        let mut d: Vec<u64> = (0..=1100).collect();
        for p in (8..64).map(|b| 1u64 << b).chain((3..20).map(|e| 10u64.pow(e))) {
            d.extend([p - 2, p - 1, p, p + 1, p + p / 2]);
        }
        d.extend([44100, 48000, 90000, u64::MAX - 1, u64::MAX]);
        d.sort_unstable();
        d.dedup();
        d
    })
}
trait Num: Copy + TryFrom<u64> {
    const MAX: u64;
}
impl Num for u8 {
    const MAX: u64 = u8::MAX as u64;
}
impl Num for u16 {
    const MAX: u64 = u16::MAX as u64;
}
impl Num for u32 {
    const MAX: u64 = u32::MAX as u64;
}
impl Num for u64 {
    const MAX: u64 = u64::MAX;
}
impl P<'_> {
    /// A number of the table, in the dense spaces also every dense number up to `max`; None comes first if there is one.
    fn num<T: Num>(&mut self, v: &[T], max: u64, none: usize) -> Option<T> {
        let d = dense_numbers();
        let m = if self.dense { d.partition_point(|x| *x <= max.min(T::MAX)) } else { 0 };
        let len = none + v.len() + m;
        let k = self.picks.get(self.radix.len()).copied().unwrap_or(0) % len;
        self.radix.push(len);
        if k < none {
            None
        } else if k - none < v.len() {
            Some(v[k - none])
        } else {
            T::try_from(d[k - none - v.len()]).ok()
        }
    }
    fn n<T: Num>(&mut self, v: &[T]) -> T {
        self.num(v, u64::MAX, 0).expect("number")
    }
    fn onn<T: Num>(&mut self, v: &[T]) -> Option<T> {
        self.num(v, u64::MAX, 1)
    }
    fn port<T: Num>(&mut self, v: &[T]) -> T {
        self.num(v, 65535, 0).expect("number")
    }
    fn oport<T: Num>(&mut self, v: &[T]) -> Option<T> {
        self.num(v, 65535, 1)
    }
    fn of<T: Clone>(&mut self, v: &[T]) -> T {
        let k = self.picks.get(self.radix.len()).copied().unwrap_or(0);
        self.radix.push(v.len());
        v[k % v.len()].clone()
    }
    fn s(&mut self, v: &[&str]) -> String {
        self.of(v).to_string()
    }
    fn o(&mut self, v: &[&str]) -> Option<String> {
        let k = self.of(&(0..=v.len()).collect::<Vec<_>>());
        if k == 0 {
            None
        } else {
            Some(v[k - 1].to_string())
        }
    }
    fn on<T: Clone>(&mut self, v: &[T]) -> Option<T> {
        let k = self.of(&(0..=v.len()).collect::<Vec<_>>());
        if k == 0 {
            None
        } else {
            Some(v[k - 1].clone())
        }
    }
}

const KINDS: &[&str] = &[
    "flags", "whole", "numbers", "framerate", "ice-options", "candidate", "dtls-message", "extmap", "fingerprint", "fmtp", "fmtp-lists", "group", "imageattr", "imageattr2", "msid",
    "msid-semantic", "rid", "remote-candidates", "rtpmap", "rtcp", "rtcp-fb", "sctpmap", "setup", "simulcast", "ssrc", "ssrc-group", "constructors",
];
const U8: &[u8] = &[0, 1, 9, 10, 99, 100, 127, 128, 254, 255];
const U32: &[u32] = &[0, 1, 9, 10, 255, 256, 65535, 65536, 2147483647, 2147483648, 4294967294, 4294967295];
const U64: &[u64] = &[0, 1, 10, 65536, 4294967295, 4294967296, 9007199254740993, 9223372036854775807, 9223372036854775808, 18446744073709551615];
const TOK: &[&str] = &["a", "0", "A.b-C_d", "x=1", "a:b", "a;b", "a,b", "é", "*", "{u-u}", "+/~", "send", "pt", "typ", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"];
const ID: &[&str] = &["a", "1", "Z9", "foo", "hi-lo_1", "send", "recv", "pt", "A"];

fn addresses() -> Vec<Address> {
    let ip = |x: &str| Address::Ip(x.parse::<IpAddr>().unwrap());
    vec![
        ip("1.2.3.4"), ip("0.0.0.0"), ip("255.255.255.255"), ip("::"), ip("::1"), ip("2001:db8:4860::4444"), ip("::ffff:1.2.3.4"), ip("fe80::1:0:0:5"),
        Address::Fqdn("h.example".into()), Address::Fqdn("localhost".into()), Address::Fqdn("a-b.c9.d_e".into()), Address::Fqdn("x".into()),
    ]
}
fn typed() -> Vec<ExplicitlyTypedAddress> {
    let ip = |x: &str| ExplicitlyTypedAddress::Ip(x.parse::<IpAddr>().unwrap());
    let d = |t, x: &str| ExplicitlyTypedAddress::Fqdn { address_type: t, domain: x.into() };
    vec![
        ip("1.2.3.4"), ip("0.0.0.0"), ip("::1"), ip("::"), ip("ff02::5:6"), d(AddressType::IpV4, "h.example"), d(AddressType::IpV6, "h.example"), d(AddressType::IpV6, "localhost"),
    ]
}
fn lists<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    let mut o = vec![vec![v[0].clone()]];
    o.extend(v.iter().skip(1).map(|x| vec![x.clone()]));
    o.push(v.to_vec());
    o.push(v.iter().rev().cloned().collect());
    o.push(vec![v[0].clone(); 2]);
    o.push(vec![v[v.len() - 1].clone(); 300]);
    o
}
fn with_empty<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    let mut o = vec![vec![]];
    o.extend(lists(v));
    o
}
fn strings(v: &[&str]) -> Vec<String> {
    v.iter().map(|x| x.to_string()).collect()
}
const F32: &[f32] = &[1.0, 0.1, 0.5, 1.5, 16.0, 0.0001, 1.3333334, 99.9999, 1e-5, 1e9];

pub fn fmtp_default() -> SdpAttributeFmtpParameters {
    SdpAttributeFmtpParameters {
        packetization_mode: 0,
        level_asymmetry_allowed: false,
        profile_level_id: 0x42000a,
        max_fs: 0,
        max_cpb: 0,
        max_dpb: 0,
        max_br: 0,
        max_mbps: 0,
        max_fr: 0,
        profile: None,
        level_idx: None,
        tier: None,
        maxplaybackrate: 48000,
        maxaveragebitrate: 0,
        usedtx: false,
        stereo: false,
        useinbandfec: false,
        cbr: false,
        ptime: 0,
        minptime: 0,
        maxptime: 0,
        encodings: vec![],
        dtmf_tones: String::new(),
        rtx: None,
        unknown_tokens: vec![],
    }
}
fn pt(p: &mut P) -> SdpAttributePayloadType {
    use SdpAttributePayloadType::*;
    let mut v: Vec<_> = U8.iter().map(|x| PayloadType(*x)).collect();
    v.push(Wildcard);
    p.of(&v)
}
fn xy(p: &mut P) -> SdpAttributeImageAttrXyRange {
    use SdpAttributeImageAttrXyRange::*;
    let mut v: Vec<_> = [1, 480, 0, 4294967295].iter().map(|x| DiscreteValues(vec![*x])).collect();
    v.extend([DiscreteValues(vec![1, 2]), DiscreteValues(vec![5, 4, 3, 9, 0])]);
    v.extend([Range(1, 2, None), Range(0, 4294967295, None), Range(1, 2, Some(3)), Range(320, 640, Some(16)), Range(0, 1, Some(0)), Range(7, 9, Some(4294967295)), Range(3, 9, Some(1))]);
    if p.dense {
        for x in dense_numbers().iter().filter_map(|x| u32::try_from(*x).ok()) {
            v.extend([DiscreteValues(vec![x]), DiscreteValues(vec![7, x]), Range(1, 5, Some(x))]);
            if x > 0 {
                v.extend([Range(0, x, None), Range(x - 1, u32::MAX, Some(2))]);
            }
        }
    }
    p.of(&v)
}
fn set(p: &mut P) -> SdpAttributeImageAttrSet {
    use SdpAttributeImageAttrSRange::*;
    let mut sar: Vec<_> = F32.iter().map(|x| DiscreteValues(vec![*x])).collect();
    let mut q = vec![0.1f32, 0.5, 1.0, 0.0, 0.25, 0.7];
    if p.dense {
        sar.extend((1..3000).map(|x| DiscreteValues(vec![x as f32 / 1000.0])));
        sar.extend((1..300).map(|x| Range(x as f32 / 100.0, x as f32 / 100.0 + 0.5)));
        q.extend((0..=1000).map(|x| x as f32 / 1000.0));
    }
    sar.extend([Range(0.1, 0.5), Range(1.0, 1.5), Range(1e-5, 1e9), DiscreteValues(vec![0.1, 1.0]), DiscreteValues(vec![0.5, 1.0, 1.3333334, 16.0])]);
    let par: Vec<_> = [(0.1, 0.5), (1.0, 16.0), (1.3333334, 1.5)].iter().map(|(a, b)| SdpAttributeImageAttrPRange { min: *a, max: *b }).collect();
    SdpAttributeImageAttrSet { x: xy(p), y: xy(p), sar: p.on(&sar), par: p.on(&par), q: p.on(&q) }
}
fn sim_versions() -> Vec<Vec<SdpAttributeSimulcastVersion>> {
    let id = |x: &str, paused| SdpAttributeSimulcastId { id: x.into(), paused };
    let one = vec![id("a", false)];
    let v: Vec<Vec<SdpAttributeSimulcastId>> = vec![
        one.clone(), vec![id("a", true)], vec![id("a", false), id("b", true)], vec![id("b", true), id("a", false), id("c9", true)], vec![id("send", false)],
        vec![id("1", false); 40],
    ];
    let mut o: Vec<Vec<SdpAttributeSimulcastVersion>> = vec![vec![]];
    for x in &v {
        o.push(vec![SdpAttributeSimulcastVersion { ids: x.clone() }]);
    }
    for x in &v {
        for y in &v {
            o.push(vec![SdpAttributeSimulcastVersion { ids: x.clone() }, SdpAttributeSimulcastVersion { ids: y.clone() }]);
        }
    }
    o.push(v.iter().map(|x| SdpAttributeSimulcastVersion { ids: x.clone() }).collect());
    o
}

/// Builds the value of these choices; None if the choices do not go together in the syntax.
fn make(kind: &str, p: &mut P) -> Option<A> {
    Some(match kind {
        "flags" => p.of(&[
            A::BundleOnly, A::EndOfCandidates, A::ExtmapAllowMixed, A::IceLite, A::IceMismatch, A::Inactive, A::Recvonly, A::RtcpMux, A::RtcpMuxOnly, A::RtcpRsize, A::Sendonly, A::Sendrecv,
        ]),
        "whole" => {
            let k = p.of(&[0, 1, 2, 3, 4]);
            let x = p.s(&[TOK, &["a b", "a  b", "a: b = c", "\"q\"", "a=b:c/d", "日本", "0 0"]].concat());
            match k {
                0 => A::IcePwd(x),
                1 => A::IceUfrag(x),
                2 => A::Identity(x),
                3 => A::Label(x),
                _ => A::Mid(x),
            }
        }
        "numbers" => {
            let k = p.of(&[0, 1, 2, 3, 4]);
            let x = p.n(U64);
            let (pace, port) = (p.of(&[0u64, 1, 50, 9_999_999_999, 4294967296]), p.port(&[0u64, 1, 5000, 65534, 65535]));
            match k {
                0 => A::MaxMessageSize(x),
                1 => A::MaxPtime(x),
                2 => A::Ptime(x),
                3 => A::IcePacing(pace),
                _ => A::SctpPort(port),
            }
        }
        "framerate" => A::FrameRate(p.of(&{
            let mut v = vec![30.0f64, 1.0, 0.1, 29.97, 59.94005994005994, 1e-7, 5e-324, 1.7976931348623157e308, 0.30000000000000004, 1e15, 1e16, 1e21, 123456789.123456789, 24000.0 / 1001.0, 9007199254740993.0];
            if p.dense {
                v.extend((1..=100_000).map(|x| x as f64 / 1000.0));
                v.extend((1..=3000).map(|x| x as f64 * 1000.0 / 1001.0));
            }
            v
        })),
        "ice-options" => A::IceOptions(p.of(&lists(&strings(TOK)))),
        "candidate" => A::Candidate(SdpAttributeCandidate {
            foundation: p.s(TOK),
            component: p.n(U32),
            transport: p.of(&[SdpAttributeCandidateTransport::Udp, SdpAttributeCandidateTransport::Tcp]),
            priority: p.n(U64),
            address: p.of(&addresses()),
            port: p.port(&[9u32, 0, 1, 80, 65534, 65535]),
            c_type: p.of(&[SdpAttributeCandidateType::Host, SdpAttributeCandidateType::Srflx, SdpAttributeCandidateType::Prflx, SdpAttributeCandidateType::Relay]),
            raddr: p.on(&addresses()),
            rport: p.oport(&[0u32, 1, 80, 65535]),
            tcp_type: p.on(&[SdpAttributeCandidateTcpType::Active, SdpAttributeCandidateTcpType::Passive, SdpAttributeCandidateTcpType::Simultaneous]),
            generation: p.onn(U32),
            ufrag: p.o(TOK),
            networkcost: p.onn(U32),
            unknown_extensions: p.of(&{
                let e = |a: &str, b: &str| (a.to_string(), b.to_string());
                vec![vec![], vec![e("x", "y")], vec![e("x", "1"), e("y", "2")], vec![e("y", "2"), e("x", "1")], vec![e("x", "1"), e("x", "1")], vec![e("é", "host")], vec![e("x", "raddr"), e("z", "rport")], vec![e("n", "v"); 30]]
            }),
        }),
        "dtls-message" => {
            let k = p.of(&[0, 1]);
            let x = p.s(TOK);
            A::DtlsMessage(if k == 0 { SdpAttributeDtlsMessage::Client(x) } else { SdpAttributeDtlsMessage::Server(x) })
        }
        "extmap" => A::Extmap(SdpAttributeExtmap {
            id: p.port(&[1u16, 0, 14, 15, 255, 256, 4095, 65534, 65535]),
            direction: p.on(&[SdpAttributeDirection::Recvonly, SdpAttributeDirection::Sendonly, SdpAttributeDirection::Sendrecv]),
            url: p.s(&[TOK, &["urn:ietf:params:rtp-hdrext:ssrc-audio-level", "http://h/x?y=z#f"]].concat()),
            extension_attributes: p.o(&["a", "a b", "vad=on", "1/2", "sendonly"]),
        }),
        "fingerprint" => {
            use SdpAttributeFingerprintHashType as H;
            let h = p.of(&[H::Sha1, H::Sha224, H::Sha256, H::Sha384, H::Sha512]);
            let n = match h {
                H::Sha1 => 20,
                H::Sha224 => 28,
                H::Sha256 => 32,
                H::Sha384 => 48,
                H::Sha512 => 64,
            };
            let (a, step) = (p.of(&(0..=255u8).collect::<Vec<_>>()), p.of(&[1u8, 0, 16, 17, 255]));
            A::Fingerprint(SdpAttributeFingerprint { hash_algorithm: h, fingerprint: (0..n).map(|i| a.wrapping_add(step.wrapping_mul(i as u8))).collect() })
        }
        "fmtp" => {
            let pt = p.n(U8);
            let rtx: Vec<_> = U8.iter().flat_map(|a| [None, Some(0), Some(1), Some(4294967295)].map(|t| RtxFmtpParameters { apt: *a, rtx_time: t })).collect();
            let unk = ["x=1", "y=", "X=a=b", "max-fs2=7", "a b=c d", "é=é", "sprop-parameter-sets=Z0,aM", "apt2=5"];
            A::Fmtp(SdpAttributeFmtp {
                payload_type: pt,
                parameters: SdpAttributeFmtpParameters {
                    packetization_mode: p.of(&[0, 1, 2]),
                    level_asymmetry_allowed: p.of(&[false, true]),
                    profile_level_id: p.of(&[0x42000a, 0, 1, 0xf, 0x10, 0xff, 0x100, 0xfff, 0x1000, 0xffff, 0x10000, 0xfffff, 0x42e01f, 0x42000b, 0xfffffe, 0xffffff]),
                    max_fs: p.n(U32),
                    max_cpb: p.n(U32),
                    max_dpb: p.n(U32),
                    max_br: p.n(U32),
                    max_mbps: p.n(U32),
                    max_fr: p.n(U32),
                    profile: p.on(&[0, 1, 2]),
                    level_idx: p.on(&[0, 1, 5, 9, 10, 30, 31]),
                    tier: p.on(&[0, 1]),
                    maxplaybackrate: p.of(&[48000, 0, 1, 47999, 48001, 8000, 4294967295]),
                    maxaveragebitrate: p.n(U32),
                    usedtx: p.of(&[false, true]),
                    stereo: p.of(&[false, true]),
                    useinbandfec: p.of(&[false, true]),
                    cbr: p.of(&[false, true]),
                    ptime: p.n(U32),
                    minptime: p.n(U32),
                    maxptime: p.n(U32),
                    encodings: vec![],
                    dtmf_tones: String::new(),
                    rtx: p.on(&rtx),
                    unknown_tokens: p.of(&with_empty(&strings(&unk))),
                },
            })
        }
        "fmtp-lists" => {
            let pt = p.n(U8);
            let enc: Vec<Vec<u8>> = vec![vec![0, 1], vec![1, 0], vec![0, 0], vec![128, 127], vec![5, 6, 7], vec![9; 40], vec![0, 128, 0]];
            let e = p.on(&enc);
            let d = p.o(&["0-15", "0", "100", "0,1", "0-1,5,7-100", "99-100", "1,1", "15-16,0"]);
            let mut q = fmtp_default();
            match (e, d) {
                (Some(e), None) => q.encodings = e,
                (None, Some(d)) => q.dtmf_tones = d,
                _ => return None,
            }
            A::Fmtp(SdpAttributeFmtp { payload_type: pt, parameters: q })
        }
        "group" => {
            use SdpAttributeGroupSemantic as G;
            A::Group(SdpAttributeGroup {
                semantics: p.of(&[
                    G::Bundle, G::LipSynchronization, G::FlowIdentification, G::SingleReservationFlow, G::AlternateNetworkAddressType, G::ForwardErrorCorrection, G::DecodingDependency,
                ]),
                tags: p.of(&with_empty(&strings(TOK))),
            })
        }
        "imageattr" => {
            let (n, pt) = (p.of(&[0, 1, 2]), pt(p));
            let a = SdpAttributeImageAttrSetList::Sets(vec![set(p)]);
            let none = SdpAttributeImageAttrSetList::Sets(vec![]);
            let star = SdpAttributeImageAttrSetList::Wildcard;
            A::ImageAttr(match n {
                0 => SdpAttributeImageAttr { pt, send: a, recv: none },
                1 => SdpAttributeImageAttr { pt, send: none, recv: a },
                _ => SdpAttributeImageAttr { pt, send: star, recv: a },
            })
        }
        "imageattr2" => {
            p.dense = false;
            let pt = pt(p);
            let lists = |p: &mut P| {
                let n = p.of(&[0usize, 1, 2, 3, 4, 9]);
                let v: Vec<_> = (0..2).map(|_| set(p)).collect();
                match n {
                    0 => SdpAttributeImageAttrSetList::Wildcard,
                    9 => SdpAttributeImageAttrSetList::Sets(vec![v[0].clone(); 30]),
                    4 => SdpAttributeImageAttrSetList::Sets(vec![]),
                    n => SdpAttributeImageAttrSetList::Sets(v.into_iter().cycle().take(n).collect()),
                }
            };
            let (send, recv) = (lists(p), lists(p));
            let none = |x: &SdpAttributeImageAttrSetList| matches!(x, SdpAttributeImageAttrSetList::Sets(v) if v.is_empty());
            if none(&send) && none(&recv) {
                return None;
            }
            A::ImageAttr(SdpAttributeImageAttr { pt, send, recv })
        }
        "msid" => A::Msid(SdpAttributeMsid { id: p.s(TOK), appdata: p.o(TOK) }),
        "msid-semantic" => A::MsidSemantic(SdpAttributeMsidSemantic { semantic: p.s(TOK), msids: p.of(&with_empty(&strings(TOK))) }),
        "rid" => A::Rid(SdpAttributeRid {
            id: p.s(ID),
            direction: p.of(&[SdpSingleDirection::Send, SdpSingleDirection::Recv]),
            formats: p.of(&with_empty(&[96u16, 0, 127, 255, 65535])),
            params: SdpAttributeRidParameters {
                max_width: p.n(U32),
                max_height: p.n(U32),
                max_fps: p.n(U32),
                max_fs: p.n(U32),
                max_br: p.n(U32),
                max_pps: p.n(U32),
                unknown: p.of(&with_empty(&strings(&["x=1", "max-x=", "Y=a=b", "é=é"]))),
            },
            depends: p.of(&with_empty(&strings(ID))),
        }),
        "remote-candidates" => A::RemoteCandidate(SdpAttributeRemoteCandidate { component: p.n(U32), address: p.of(&addresses()), port: p.port(&[0u32, 1, 80, 65535]) }),
        "rtpmap" => A::Rtpmap(SdpAttributeRtpmap {
            payload_type: p.of(&(0..=127u8).collect::<Vec<_>>()),
            codec_name: p.s(&["VP8", "opus", "telephone-event", "H264", "a", "A.b_c-9", "*", "é"]),
            frequency: p.n(U32),
            channels: p.onn(U32),
        }),
        "rtcp" => A::Rtcp(SdpAttributeRtcp { port: p.port(&[9u16, 0, 1, 80, 65534, 65535]), unicast_addr: p.on(&typed()) }),
        "rtcp-fb" => {
            use SdpAttributeRtcpFbType as F;
            let pt = pt(p);
            let (t, l): (F, &[&str]) = match p.of(&[0, 1, 2, 3, 4, 5]) {
                0 => (F::Ack, &["rpsi", "app"]),
                1 => (F::Ccm, &["fir", "tmmbr", "tstr", "vbcm", ""]),
                2 => (F::Nack, &["sli", "pli", "rpsi", "app", ""]),
                3 => (F::TrrInt, &["0", "1", "100", "4294967295"]),
                4 => (F::Remb, &[""]),
                _ => (F::TransCc, &[""]),
            };
            let n = p.of(&[0, 1, 2, 3, 4]);
            if n >= l.len() {
                return None;
            }
            let extra = p.s(&["", "x", "a b", "1 2  3", "é", "fir"]);
            if l[n].is_empty() && !extra.is_empty() {
                return None;
            }
            A::Rtcpfb(SdpAttributeRtcpFb { payload_type: pt, feedback_type: t, parameter: l[n].into(), extra })
        }
        "sctpmap" => A::Sctpmap(SdpAttributeSctpmap { port: p.port(&[5000u16, 0, 1, 65534, 65535]), channels: p.n(U32) }),
        "setup" => A::Setup(p.of(&[SdpAttributeSetup::Active, SdpAttributeSetup::Actpass, SdpAttributeSetup::Holdconn, SdpAttributeSetup::Passive])),
        "simulcast" => {
            let v = sim_versions();
            let (send, receive) = (p.of(&v), p.of(&v));
            if send.is_empty() && receive.is_empty() {
                return None;
            }
            A::Simulcast(SdpAttributeSimulcast { send, receive })
        }
        "ssrc" => {
            let id = p.n(U32);
            let attribute = p.o(&["cname", "msid", "label", "x", "é", "CNAME", "a-b"]);
            let value = p.o(&["v", "a b", "a:b", "é", "{u-u}", ":x", "0"]);
            if attribute.is_none() && value.is_some() {
                return None;
            }
            A::Ssrc(SdpAttributeSsrc { id, attribute, value })
        }
        "ssrc-group" => {
            use SdpSsrcGroupSemantic as G;
            A::SsrcGroup(
                p.of(&[G::FlowIdentification, G::Duplication, G::ForwardErrorCorrection, G::ForwardErrorCorrectionFr, G::Sim]),
                p.of(&lists(U32)).into_iter().map(SdpAttributeSsrc::new).collect(),
            )
        }
        _ => match p.of(&[0, 1, 2, 3, 4, 5]) {
            0 => A::Rtcp(SdpAttributeRtcp::new(p.of(&[9u16, 0, 65535]))),
            1 => A::Rtpmap(SdpAttributeRtpmap::new(5, "x".into(), p.of(&[90000u32, 1, 4294967295]))),
            2 => A::Ssrc(SdpAttributeSsrc::new(p.of(&[1u32, 0, 4294967295]))),
            3 => A::Candidate(SdpAttributeCandidate::new(
                "f".into(),
                2,
                SdpAttributeCandidateTransport::Tcp,
                p.of(&[3u64, 0, 18446744073709551615]),
                addresses()[0].clone(),
                4,
                SdpAttributeCandidateType::Relay,
            )),
            4 => A::Simulcast(SdpAttributeSimulcast { send: vec![SdpAttributeSimulcastVersion::new(p.of(&["a", "~a", "a,~b,c"]))], receive: vec![] }),
            _ => A::Simulcast(SdpAttributeSimulcast {
                send: vec![],
                receive: vec![SdpAttributeSimulcastVersion { ids: vec![SdpAttributeSimulcastId::new(p.of(&["a", "~a", "1"]))] }],
            }),
        },
    })
}
/// What the constructors must give.
fn constructed(picks: &[usize]) -> V {
    let k = picks.get(1).copied().unwrap_or(0);
    let sid = |x: &str, b| T("sid", vec![s(x), B(b)]);
    match picks.first().copied().unwrap_or(0) {
        0 => T("rtcp", vec![u([9, 0, 65535][k]), No]),
        1 => T("rtpmap", vec![u(5), s("x"), u([90000u32, 1, 4294967295][k]), No]),
        2 => T("ssrc", vec![u([1u32, 0, 4294967295][k]), No, No]),
        3 => T(
            "candidate",
            vec![
                s("f"), u(2), s("tcp"), u([3u64, 0, 18446744073709551615][k]), T("Ip", vec![s("1.2.3.4")]), u(4), s("relay"), No, No, No, No, No, No, L(vec![]),
            ],
        ),
        4 => T(
            "simulcast",
            vec![
                L(vec![L(match k {
                    0 => vec![sid("a", false)],
                    1 => vec![sid("a", true)],
                    _ => vec![sid("a", false), sid("b", true), sid("c", false)],
                })]),
                L(vec![]),
            ],
        ),
        _ => T(
            "simulcast",
            vec![L(vec![]), L(vec![L(vec![match k {
                0 => sid("a", false),
                1 => sid("a", true),
                _ => sid("1", false),
            }])])],
        ),
    }
}

fn split(kind: &str) -> (bool, &str) {
    match kind.strip_prefix("dense:") {
        Some(k) => (true, k),
        None => (false, kind),
    }
}
fn radices(kind: &str) -> Vec<usize> {
    let (dense, kind) = split(kind);
    let mut p = P { picks: &[], radix: vec![], dense };
    let _ = make(kind, &mut p);
    p.radix
}
/// Number of choices with at most d fields away from their default.
fn count(r: &[usize], d: usize) -> usize {
    let mut c = vec![0usize; d + 1];
    c[0] = 1;
    for x in r {
        for k in (1..=d).rev() {
            c[k] = c[k].saturating_add(c[k - 1].saturating_mul(x - 1));
        }
    }
    c.iter().fold(0usize, |a, b| a.saturating_add(*b))
}
/// The i-th of them.
fn at(r: &[usize], mut d: usize, mut i: usize) -> Vec<usize> {
    let mut o = vec![];
    for k in 0..r.len() {
        let rest = count(&r[k + 1..], d);
        if i < rest {
            o.push(0);
            continue;
        }
        i -= rest;
        let sub = count(&r[k + 1..], d - 1);
        o.push(1 + i / sub);
        i %= sub;
        d -= 1;
    }
    o
}

impl Check for Built {
    fn id(&self) -> &'static str {
        "C25"
    }
    fn rule(&self) -> &'static str {
        "for every attribute type, all combinations of field values from boundary tables with up to a number of fields away from their \
         defaults (all combinations where they are few), built as values; printed, read back as an attribute and as a line and compared in every field"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "values outside the syntax of an attribute are not built: texts with line ends or separators of their list, several kinds of format \
             parameters at once, a value without a source attribute, empty simulcast and image lists in both directions",
        ]
    }
    fn must_see(&self) -> Vec<&'static str> {
        vec!["same", "prints-nothing"]
    }
    fn explore(&self, e: &Engine) {
        for k in KINDS {
            let r = radices(k);
            let budget = e.pick(1_500_000, 30_000_000);
            let mut d = r.len();
            while d > 2 && count(&r, d) > budget {
                d -= 1;
            }
            let n = count(&r, d);
            let dk = format!("dense:{k}");
            let dr = radices(&dk);
            if dr != r {
                let mut d = dr.len().min(3);
                while d > 1 && count(&dr, d) > budget / 3 {
                    d -= 1;
                }
                e.sweep(&dk, &format!("{} fields with {dr:?} values, at most {d} away from the default", dr.len()), count(&dr, d), |i| {
                    at(&dr, d, i).iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
                });
            }
            e.sweep(k, &format!("{} fields with {r:?} values, at most {d} away from the default", r.len()), n, |i| {
                at(&r, d, i).iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
            });
        }
    }
    fn decide(&self, kind: &str, x: &str) -> Verdict {
        let picks: Vec<usize> = x.split(',').filter_map(|x| x.parse().ok()).collect();
        let (dense, kind) = split(kind);
        let mut p = P { picks: &picks, radix: vec![], dense };
        let Some(a) = make(kind, &mut p) else { return Ok("not-in-the-syntax") };
        let v = proj::attr(&a);
        if kind == "constructors" && v != constructed(&picks) {
            return Err(format!("constructed {v:?} instead of {:?}", constructed(&picks)));
        }
        let t = a.to_string();
        let n = name_of(&v);
        if kind == "flags" {
            if t != n {
                return Err(format!("{n} prints as {t:?}"));
            }
        } else if !t.is_empty() && !t.starts_with(&format!("{n}:")) {
            return Err(format!("{v:?} prints as {t:?}"));
        }
        attr_round(&a)
    }
}
