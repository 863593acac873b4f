//! Projection of the crate's values to model values, through its public fields and getters only.
use crate::model::*;
use webrtc_sdp::address::{Address, AddressType, ExplicitlyTypedAddress};
use webrtc_sdp::attribute_type::*;
use webrtc_sdp::error::SdpParserError;
use webrtc_sdp::media_type::*;
use webrtc_sdp::*;

pub fn addr(a: &Address) -> V {
    match a {
        Address::Ip(ip) => T("Ip", vec![S(ip.to_string())]),
        Address::Fqdn(d) => T("Fqdn", vec![s(d)]),
    }
}
pub fn atype(t: AddressType) -> V {
    match t {
        AddressType::IpV4 => U(4),
        AddressType::IpV6 => U(6),
    }
}
pub fn taddr(a: &ExplicitlyTypedAddress) -> V {
    match a {
        ExplicitlyTypedAddress::Ip(ip) => {
            T("TIp", vec![U(if ip.is_ipv4() { 4 } else { 6 }), S(ip.to_string())])
        }
        ExplicitlyTypedAddress::Fqdn { address_type, domain } => {
            T("TFqdn", vec![atype(*address_type), s(domain)])
        }
    }
}
pub fn conn(c: &SdpConnection) -> V {
    T("c", vec![taddr(&c.address), opt(c.ttl, u), opt(c.amount, u)])
}
pub fn bw(b: &SdpBandwidth) -> V {
    match b {
        SdpBandwidth::As(x) => T("AS", vec![u(*x)]),
        SdpBandwidth::Ct(x) => T("CT", vec![u(*x)]),
        SdpBandwidth::Tias(x) => T("TIAS", vec![u(*x)]),
        SdpBandwidth::Unknown(n, x) => T("bw-other", vec![s(n), u(*x)]),
    }
}
pub fn origin(o: &SdpOrigin) -> V {
    T("o", vec![s(&o.username), u(o.session_id), u(o.session_version), taddr(&o.unicast_addr)])
}
pub fn timing(t: &SdpTiming) -> V {
    T("t", vec![u(t.start), u(t.stop)])
}
pub fn kind(m: &SdpMediaValue) -> V {
    s(match m {
        SdpMediaValue::Audio => "audio",
        SdpMediaValue::Video => "video",
        SdpMediaValue::Application => "application",
    })
}
pub fn proto(p: &SdpProtocolValue) -> V {
    s(match p {
        SdpProtocolValue::RtpAvp => "RTP/AVP",
        SdpProtocolValue::RtpAvpf => "RTP/AVPF",
        SdpProtocolValue::RtpSavp => "RTP/SAVP",
        SdpProtocolValue::RtpSavpf => "RTP/SAVPF",
        SdpProtocolValue::TcpDtlsRtpSavp => "TCP/DTLS/RTP/SAVP",
        SdpProtocolValue::TcpDtlsRtpSavpf => "TCP/DTLS/RTP/SAVPF",
        SdpProtocolValue::UdpTlsRtpSavp => "UDP/TLS/RTP/SAVP",
        SdpProtocolValue::UdpTlsRtpSavpf => "UDP/TLS/RTP/SAVPF",
        SdpProtocolValue::DtlsSctp => "DTLS/SCTP",
        SdpProtocolValue::UdpDtlsSctp => "UDP/DTLS/SCTP",
        SdpProtocolValue::TcpDtlsSctp => "TCP/DTLS/SCTP",
    })
}
pub fn formats(f: &SdpFormatList) -> V {
    match f {
        SdpFormatList::Integers(x) => T("ints", vec![list(x, |y| u(*y))]),
        SdpFormatList::Strings(x) => T("strs", vec![list(x, |y| s(y))]),
    }
}
pub fn mline(m: &SdpMediaLine) -> V {
    T("m", vec![kind(&m.media), u(m.port), u(m.port_count), proto(&m.proto), formats(&m.formats)])
}
pub fn media(m: &SdpMedia) -> Med {
    Med {
        line: T(
            "m",
            vec![
                kind(m.get_type()),
                u(m.get_port()),
                u(m.get_port_count()),
                proto(m.get_proto()),
                formats(m.get_formats()),
            ],
        ),
        connection: opt(m.get_connection().as_ref(), conn),
        bandwidth: m.get_bandwidth().iter().map(bw).collect(),
        attrs: m.get_attributes().iter().map(attr).collect(),
    }
}
pub fn sess(x: &SdpSession) -> Sess {
    Sess {
        version: u(x.version),
        origin: origin(&x.origin),
        name: opt(x.session.as_ref(), |n| s(n)),
        connection: opt(x.connection.as_ref(), conn),
        bandwidth: x.bandwidth.iter().map(bw).collect(),
        timing: opt(x.timing.as_ref(), timing),
        attrs: x.attribute.iter().map(attr).collect(),
        media: x.media.iter().map(media).collect(),
    }
}
pub fn pt(p: &SdpAttributePayloadType) -> V {
    match p {
        SdpAttributePayloadType::PayloadType(x) => u(*x),
        SdpAttributePayloadType::Wildcard => s("*"),
    }
}
fn dir(d: &SdpSingleDirection) -> V {
    s(match d {
        SdpSingleDirection::Send => "send",
        SdpSingleDirection::Recv => "recv",
    })
}
fn xy(x: &SdpAttributeImageAttrXyRange) -> V {
    match x {
        SdpAttributeImageAttrXyRange::Range(a, b, c) => T("range", vec![u(*a), u(*b), opt(*c, u)]),
        SdpAttributeImageAttrXyRange::DiscreteValues(v) => T("values", vec![list(v, |y| u(*y))]),
    }
}
fn f32v(x: f32) -> V {
    fl(f64::from(x))
}
fn imgset(x: &SdpAttributeImageAttrSet) -> V {
    T(
        "set",
        vec![
            xy(&x.x),
            xy(&x.y),
            opt(x.sar.as_ref(), |r| match r {
                SdpAttributeImageAttrSRange::Range(a, b) => T("range", vec![f32v(*a), f32v(*b)]),
                SdpAttributeImageAttrSRange::DiscreteValues(v) => {
                    T("values", vec![list(v, |y| f32v(*y))])
                }
            }),
            opt(x.par.as_ref(), |p| T("range", vec![f32v(p.min), f32v(p.max)])),
            opt(x.q, f32v),
        ],
    )
}
fn imgsets(x: &SdpAttributeImageAttrSetList) -> V {
    match x {
        SdpAttributeImageAttrSetList::Sets(v) => list(v, imgset),
        SdpAttributeImageAttrSetList::Wildcard => s("*"),
    }
}
pub fn ssrc(x: &SdpAttributeSsrc) -> V {
    T(
        "ssrc",
        vec![u(x.id), opt(x.attribute.as_ref(), |y| s(y)), opt(x.value.as_ref(), |y| s(y))],
    )
}
fn sims(v: &[SdpAttributeSimulcastVersion]) -> V {
    list(v, |y| list(&y.ids, |z| T("sid", vec![s(&z.id), B(z.paused)])))
}
pub fn fmtp_params(p: &SdpAttributeFmtpParameters) -> V {
    T(
        "params",
        vec![
            u(p.packetization_mode),
            B(p.level_asymmetry_allowed),
            u(p.profile_level_id),
            u(p.max_fs),
            u(p.max_cpb),
            u(p.max_dpb),
            u(p.max_br),
            u(p.max_mbps),
            u(p.max_fr),
            opt(p.profile, u),
            opt(p.level_idx, u),
            opt(p.tier, u),
            u(p.maxplaybackrate),
            u(p.maxaveragebitrate),
            B(p.usedtx),
            B(p.stereo),
            B(p.useinbandfec),
            B(p.cbr),
            u(p.ptime),
            u(p.minptime),
            u(p.maxptime),
            list(&p.encodings, |x| u(*x)),
            s(&p.dtmf_tones),
            opt(p.rtx.as_ref(), |r| T("rtx", vec![u(r.apt), opt(r.rtx_time, u)])),
            list(&p.unknown_tokens, |x| s(x)),
        ],
    )
}

pub fn attr(a: &SdpAttribute) -> V {
    use SdpAttribute as A;
    let flag = |n: &'static str| T(n, vec![]);
    match a {
        A::BundleOnly => flag("bundle-only"),
        A::EndOfCandidates => flag("end-of-candidates"),
        A::ExtmapAllowMixed => flag("extmap-allow-mixed"),
        A::IceLite => flag("ice-lite"),
        A::IceMismatch => flag("ice-mismatch"),
        A::Inactive => flag("inactive"),
        A::Recvonly => flag("recvonly"),
        A::RtcpMux => flag("rtcp-mux"),
        A::RtcpMuxOnly => flag("rtcp-mux-only"),
        A::RtcpRsize => flag("rtcp-rsize"),
        A::Sendonly => flag("sendonly"),
        A::Sendrecv => flag("sendrecv"),
        A::IcePwd(x) => T("ice-pwd", vec![s(x)]),
        A::IceUfrag(x) => T("ice-ufrag", vec![s(x)]),
        A::Identity(x) => T("identity", vec![s(x)]),
        A::Label(x) => T("label", vec![s(x)]),
        A::Mid(x) => T("mid", vec![s(x)]),
        A::MaxMessageSize(x) => T("max-message-size", vec![u(*x)]),
        A::MaxPtime(x) => T("maxptime", vec![u(*x)]),
        A::Ptime(x) => T("ptime", vec![u(*x)]),
        A::IcePacing(x) => T("ice-pacing", vec![u(*x)]),
        A::SctpPort(x) => T("sctp-port", vec![u(*x)]),
        A::FrameRate(x) => T("framerate", vec![fl(*x)]),
        A::IceOptions(x) => T("ice-options", vec![list(x, |y| s(y))]),
        A::Candidate(c) => T(
            "candidate",
            vec![
                s(&c.foundation),
                u(c.component),
                s(match c.transport {
                    SdpAttributeCandidateTransport::Udp => "udp",
                    SdpAttributeCandidateTransport::Tcp => "tcp",
                }),
                u(c.priority),
                addr(&c.address),
                u(c.port),
                s(match c.c_type {
                    SdpAttributeCandidateType::Host => "host",
                    SdpAttributeCandidateType::Srflx => "srflx",
                    SdpAttributeCandidateType::Prflx => "prflx",
                    SdpAttributeCandidateType::Relay => "relay",
                }),
                opt(c.raddr.as_ref(), addr),
                opt(c.rport, u),
                opt(c.tcp_type.as_ref(), |t| {
                    s(match t {
                        SdpAttributeCandidateTcpType::Active => "active",
                        SdpAttributeCandidateTcpType::Passive => "passive",
                        SdpAttributeCandidateTcpType::Simultaneous => "so",
                    })
                }),
                opt(c.generation, u),
                opt(c.ufrag.as_ref(), |y| s(y)),
                opt(c.networkcost, u),
                list(&c.unknown_extensions, |(a, b)| T("ext", vec![s(a), s(b)])),
            ],
        ),
        A::DtlsMessage(d) => match d {
            SdpAttributeDtlsMessage::Client(m) => T("dtls-message", vec![s("client"), s(m)]),
            SdpAttributeDtlsMessage::Server(m) => T("dtls-message", vec![s("server"), s(m)]),
        },
        A::Extmap(e) => T(
            "extmap",
            vec![
                u(e.id),
                opt(e.direction.as_ref(), |d| {
                    s(match d {
                        SdpAttributeDirection::Recvonly => "recvonly",
                        SdpAttributeDirection::Sendonly => "sendonly",
                        SdpAttributeDirection::Sendrecv => "sendrecv",
                    })
                }),
                s(&e.url),
                opt(e.extension_attributes.as_ref(), |y| s(y)),
            ],
        ),
        A::Fingerprint(f) => T(
            "fingerprint",
            vec![
                s(match f.hash_algorithm {
                    SdpAttributeFingerprintHashType::Sha1 => "sha-1",
                    SdpAttributeFingerprintHashType::Sha224 => "sha-224",
                    SdpAttributeFingerprintHashType::Sha256 => "sha-256",
                    SdpAttributeFingerprintHashType::Sha384 => "sha-384",
                    SdpAttributeFingerprintHashType::Sha512 => "sha-512",
                }),
                list(&f.fingerprint, |b| u(*b)),
            ],
        ),
        A::Fmtp(f) => T("fmtp", vec![u(f.payload_type), fmtp_params(&f.parameters)]),
        A::Group(g) => T(
            "group",
            vec![
                s(match g.semantics {
                    SdpAttributeGroupSemantic::LipSynchronization => "LS",
                    SdpAttributeGroupSemantic::FlowIdentification => "FID",
                    SdpAttributeGroupSemantic::SingleReservationFlow => "SRF",
                    SdpAttributeGroupSemantic::AlternateNetworkAddressType => "ANAT",
                    SdpAttributeGroupSemantic::ForwardErrorCorrection => "FEC",
                    SdpAttributeGroupSemantic::DecodingDependency => "DDP",
                    SdpAttributeGroupSemantic::Bundle => "BUNDLE",
                }),
                list(&g.tags, |y| s(y)),
            ],
        ),
        A::ImageAttr(i) => T("imageattr", vec![pt(&i.pt), imgsets(&i.send), imgsets(&i.recv)]),
        A::Msid(m) => T("msid", vec![s(&m.id), opt(m.appdata.as_ref(), |y| s(y))]),
        A::MsidSemantic(m) => T("msid-semantic", vec![s(&m.semantic), list(&m.msids, |y| s(y))]),
        A::Rid(r) => T(
            "rid",
            vec![
                s(&r.id),
                dir(&r.direction),
                list(&r.formats, |y| u(*y)),
                L(vec![
                    u(r.params.max_width),
                    u(r.params.max_height),
                    u(r.params.max_fps),
                    u(r.params.max_fs),
                    u(r.params.max_br),
                    u(r.params.max_pps),
                ]),
                list(&r.params.unknown, |y| s(y)),
                list(&r.depends, |y| s(y)),
            ],
        ),
        A::RemoteCandidate(r) => {
            T("remote-candidates", vec![u(r.component), addr(&r.address), u(r.port)])
        }
        A::Rtpmap(r) => T(
            "rtpmap",
            vec![u(r.payload_type), s(&r.codec_name), u(r.frequency), opt(r.channels, u)],
        ),
        A::Rtcp(r) => T("rtcp", vec![u(r.port), opt(r.unicast_addr.as_ref(), taddr)]),
        A::Rtcpfb(r) => T(
            "rtcp-fb",
            vec![
                pt(&r.payload_type),
                s(match r.feedback_type {
                    SdpAttributeRtcpFbType::Ack => "ack",
                    SdpAttributeRtcpFbType::Ccm => "ccm",
                    SdpAttributeRtcpFbType::Nack => "nack",
                    SdpAttributeRtcpFbType::TrrInt => "trr-int",
                    SdpAttributeRtcpFbType::Remb => "goog-remb",
                    SdpAttributeRtcpFbType::TransCc => "transport-cc",
                }),
                s(&r.parameter),
                s(&r.extra),
            ],
        ),
        A::Sctpmap(x) => T("sctpmap", vec![u(x.port), u(x.channels)]),
        A::Setup(x) => T(
            "setup",
            vec![s(match x {
                SdpAttributeSetup::Active => "active",
                SdpAttributeSetup::Actpass => "actpass",
                SdpAttributeSetup::Holdconn => "holdconn",
                SdpAttributeSetup::Passive => "passive",
            })],
        ),
        A::Simulcast(x) => T("simulcast", vec![sims(&x.send), sims(&x.receive)]),
        A::Ssrc(x) => ssrc(x),
        A::SsrcGroup(g, v) => T(
            "ssrc-group",
            vec![
                s(match g {
                    SdpSsrcGroupSemantic::Duplication => "DUP",
                    SdpSsrcGroupSemantic::FlowIdentification => "FID",
                    SdpSsrcGroupSemantic::ForwardErrorCorrection => "FEC",
                    SdpSsrcGroupSemantic::ForwardErrorCorrectionFr => "FEC-FR",
                    SdpSsrcGroupSemantic::Sim => "SIM",
                }),
                list(v, ssrc),
            ],
        ),
    }
}

pub fn line(t: &SdpType) -> V {
    match t {
        SdpType::Attribute(a) => T("a=", vec![attr(a)]),
        SdpType::Bandwidth(b) => T("b=", vec![bw(b)]),
        SdpType::Connection(c) => T("c=", vec![conn(c)]),
        SdpType::Media(m) => T("m=", vec![mline(m)]),
        SdpType::Origin(o) => T("o=", vec![origin(o)]),
        SdpType::Session(x) => T("s=", vec![s(x)]),
        SdpType::Timing(t) => T("t=", vec![timing(t)]),
        SdpType::Version(v) => T("v=", vec![u(*v)]),
    }
}

pub fn loc(e: &SdpParserError) -> Out {
    match e {
        SdpParserError::Line { line, line_number, .. } => {
            Out::Line(Loc { number: *line_number, text: line.clone() })
        }
        SdpParserError::Unsupported { line, line_number, .. } => {
            Out::Unsup(Loc { number: *line_number, text: line.clone() })
        }
        SdpParserError::Sequence { line_number, .. } => Out::Seq(*line_number),
    }
}

pub fn out(r: &Result<SdpSession, SdpParserError>) -> Out {
    match r {
        Ok(x) => Out::Ok(
            sess(x),
            x.warnings
                .iter()
                .map(|w| match loc(w) {
                    Out::Line(l) | Out::Unsup(l) => l,
                    _ => Loc { number: usize::MAX, text: "sequence error as a warning".into() },
                })
                .collect(),
        ),
        Err(e) => loc(e),
    }
}
pub fn parse(text: &str, strict: bool) -> Out {
    out(&parse_sdp(text, strict))
}

/// Class of an internal error: unsupported, or an error.
pub fn icls(e: &webrtc_sdp::error::SdpParserInternalError) -> Cls {
    match e {
        webrtc_sdp::error::SdpParserInternalError::Unsupported(_) => Cls::Unsup,
        _ => Cls::Err,
    }
}
pub fn parse_attr(text: &str) -> Result<V, Cls> {
    match text.parse::<SdpAttribute>() {
        Ok(a) => Ok(attr(&a)),
        Err(e) => Err(icls(&e)),
    }
}
pub fn parse_line(text: &str) -> Result<V, Cls> {
    match parse_sdp_line(text, 0) {
        Ok(l) => Ok(line(&l.sdp_type)),
        Err(SdpParserError::Unsupported { .. }) => Err(Cls::Unsup),
        Err(_) => Err(Cls::Err),
    }
}
