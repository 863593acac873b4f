//! The JSON form a value must have, built from its public fields and getters.
use serde_json::{json, Map, Value};
use webrtc_sdp::address::{Address, AddressType, ExplicitlyTypedAddress};
use webrtc_sdp::attribute_type::*;
use webrtc_sdp::error::SdpParserError;
use webrtc_sdp::media_type::*;
use webrtc_sdp::*;

fn one(tag: &str, v: Value) -> Value {
    let mut m = Map::new();
    m.insert(tag.into(), v);
    Value::Object(m)
}
fn opt<T>(o: &Option<T>, f: impl Fn(&T) -> Value) -> Value {
    o.as_ref().map_or(Value::Null, f)
}
fn list<T>(v: &[T], f: impl Fn(&T) -> Value) -> Value {
    Value::Array(v.iter().map(f).collect())
}
fn atype(t: AddressType) -> Value {
    json!(match t {
        AddressType::IpV4 => "IpV4",
        AddressType::IpV6 => "IpV6",
    })
}
fn addr(a: &Address) -> Value {
    match a {
        Address::Fqdn(d) => json!({ "Fqdn": d }),
        Address::Ip(i) => json!({"Ip": i.to_string()}),
    }
}
fn taddr(a: &ExplicitlyTypedAddress) -> Value {
    match a {
        ExplicitlyTypedAddress::Fqdn { address_type, domain } => json!({"Fqdn": {"address_type": atype(*address_type), "domain": domain}}),
        ExplicitlyTypedAddress::Ip(i) => json!({"Ip": i.to_string()}),
    }
}
/// A float as the JSON text of its shortest decimal form.
fn f32v(x: f32) -> Value {
    float(f64::from(x), x.to_string())
}
fn float(x: f64, t: String) -> Value {
    if !x.is_finite() {
        return Value::Null;
    }
    t.parse::<f64>().map_or(Value::Null, |y| json!(y))
}
fn conn(c: &SdpConnection) -> Value {
    json!({"address": taddr(&c.address), "ttl": c.ttl, "amount": c.amount})
}
fn bw(b: &SdpBandwidth) -> Value {
    match b {
        SdpBandwidth::As(x) => json!({ "As": x }),
        SdpBandwidth::Ct(x) => json!({ "Ct": x }),
        SdpBandwidth::Tias(x) => json!({ "Tias": x }),
        SdpBandwidth::Unknown(n, x) => json!({ "Unknown": [n, x] }),
    }
}
fn origin(o: &SdpOrigin) -> Value {
    json!({"username": o.username, "session_id": o.session_id, "session_version": o.session_version, "unicast_addr": taddr(&o.unicast_addr)})
}
fn timing(t: &SdpTiming) -> Value {
    json!({"start": t.start, "stop": t.stop})
}
fn mline(kind: &SdpMediaValue, port: u32, count: u32, proto: &SdpProtocolValue, f: &SdpFormatList) -> Value {
    let k = match kind {
        SdpMediaValue::Audio => "Audio",
        SdpMediaValue::Video => "Video",
        SdpMediaValue::Application => "Application",
    };
    let p = match proto {
        SdpProtocolValue::RtpAvp => "RtpAvp",
        SdpProtocolValue::RtpAvpf => "RtpAvpf",
        SdpProtocolValue::RtpSavp => "RtpSavp",
        SdpProtocolValue::RtpSavpf => "RtpSavpf",
        SdpProtocolValue::TcpDtlsRtpSavp => "TcpDtlsRtpSavp",
        SdpProtocolValue::TcpDtlsRtpSavpf => "TcpDtlsRtpSavpf",
        SdpProtocolValue::UdpTlsRtpSavp => "UdpTlsRtpSavp",
        SdpProtocolValue::UdpTlsRtpSavpf => "UdpTlsRtpSavpf",
        SdpProtocolValue::DtlsSctp => "DtlsSctp",
        SdpProtocolValue::UdpDtlsSctp => "UdpDtlsSctp",
        SdpProtocolValue::TcpDtlsSctp => "TcpDtlsSctp",
    };
    let f = match f {
        SdpFormatList::Integers(v) => json!({ "Integers": v }),
        SdpFormatList::Strings(v) => json!({ "Strings": v }),
    };
    json!({"media": k, "port": port, "port_count": count, "proto": p, "formats": f})
}
fn media(m: &SdpMedia) -> Value {
    json!({
        "media": mline(m.get_type(), m.get_port(), m.get_port_count(), m.get_proto(), m.get_formats()),
        "connection": opt(m.get_connection(), conn),
        "bandwidth": list(m.get_bandwidth(), bw),
        "attribute": list(m.get_attributes(), attr),
    })
}
pub fn sess(s: &SdpSession) -> Value {
    json!({
        "version": s.version,
        "origin": origin(&s.origin),
        "session": s.session,
        "connection": opt(&s.connection, conn),
        "bandwidth": list(&s.bandwidth, bw),
        "timing": opt(&s.timing, timing),
        "attribute": list(&s.attribute, attr),
        "media": list(&s.media, media),
        "warnings": list(&s.warnings, error),
    })
}
pub fn error(e: &SdpParserError) -> Value {
    match e {
        SdpParserError::Line { error, line, line_number } => {
            json!({"type": "Line", "message": error.to_string(), "line": line, "line_number": line_number})
        }
        SdpParserError::Unsupported { error, line, line_number } => {
            json!({"type": "Unsupported", "message": error.to_string(), "line": line, "line_number": line_number})
        }
        SdpParserError::Sequence { message, line_number } => json!({"type": "Sequence", "message": message, "line_number": line_number}),
    }
}
pub fn line(l: &SdpLine) -> Value {
    let t = match &l.sdp_type {
        SdpType::Attribute(a) => one("Attribute", attr(a)),
        SdpType::Bandwidth(b) => one("Bandwidth", bw(b)),
        SdpType::Connection(c) => one("Connection", conn(c)),
        SdpType::Media(m) => one("Media", mline(&m.media, m.port, m.port_count, &m.proto, &m.formats)),
        SdpType::Origin(o) => one("Origin", origin(o)),
        SdpType::Session(s) => json!({ "Session": s }),
        SdpType::Timing(t) => one("Timing", timing(t)),
        SdpType::Version(v) => json!({ "Version": v }),
    };
    json!({"line_number": l.line_number, "sdp_type": t, "text": l.text})
}
fn pt(p: &SdpAttributePayloadType) -> Value {
    match p {
        SdpAttributePayloadType::PayloadType(x) => json!({ "PayloadType": x }),
        SdpAttributePayloadType::Wildcard => json!("Wildcard"),
    }
}
fn xy(x: &SdpAttributeImageAttrXyRange) -> Value {
    match x {
        SdpAttributeImageAttrXyRange::Range(a, b, c) => json!({ "Range": [a, b, c] }),
        SdpAttributeImageAttrXyRange::DiscreteValues(v) => json!({ "DiscreteValues": v }),
    }
}
fn sets(x: &SdpAttributeImageAttrSetList) -> Value {
    match x {
        SdpAttributeImageAttrSetList::Wildcard => json!("Wildcard"),
        SdpAttributeImageAttrSetList::Sets(v) => one(
            "Sets",
            list(v, |s| {
                json!({
                    "x": xy(&s.x), "y": xy(&s.y),
                    "sar": opt(&s.sar, |r| match r {
                        SdpAttributeImageAttrSRange::Range(a, b) => json!({"Range": [f32v(*a), f32v(*b)]}),
                        SdpAttributeImageAttrSRange::DiscreteValues(v) => one("DiscreteValues", list(v, |y| f32v(*y))),
                    }),
                    "par": opt(&s.par, |p| json!({"min": f32v(p.min), "max": f32v(p.max)})),
                    "q": opt(&s.q, |q| f32v(*q)),
                })
            }),
        ),
    }
}
fn ssrc(x: &SdpAttributeSsrc) -> Value {
    json!({"id": x.id, "attribute": x.attribute, "value": x.value})
}
fn sims(v: &[SdpAttributeSimulcastVersion]) -> Value {
    list(v, |s| one("ids", list(&s.ids, |i| json!({"id": i.id, "paused": i.paused}))))
}
pub fn attr(a: &SdpAttribute) -> Value {
    use SdpAttribute as A;
    match a {
        A::BundleOnly => json!("BundleOnly"),
        A::EndOfCandidates => json!("EndOfCandidates"),
        A::ExtmapAllowMixed => json!("ExtmapAllowMixed"),
        A::IceLite => json!("IceLite"),
        A::IceMismatch => json!("IceMismatch"),
        A::Inactive => json!("Inactive"),
        A::Recvonly => json!("Recvonly"),
        A::RtcpMux => json!("RtcpMux"),
        A::RtcpMuxOnly => json!("RtcpMuxOnly"),
        A::RtcpRsize => json!("RtcpRsize"),
        A::Sendonly => json!("Sendonly"),
        A::Sendrecv => json!("Sendrecv"),
        A::IcePwd(x) => json!({ "IcePwd": x }),
        A::IceUfrag(x) => json!({ "IceUfrag": x }),
        A::Identity(x) => json!({ "Identity": x }),
        A::Label(x) => json!({ "Label": x }),
        A::Mid(x) => json!({ "Mid": x }),
        A::MaxMessageSize(x) => json!({ "MaxMessageSize": x }),
        A::MaxPtime(x) => json!({ "MaxPtime": x }),
        A::Ptime(x) => json!({ "Ptime": x }),
        A::IcePacing(x) => json!({ "IcePacing": x }),
        A::SctpPort(x) => json!({ "SctpPort": x }),
        A::FrameRate(x) => one("FrameRate", float(*x, x.to_string())),
        A::IceOptions(x) => json!({ "IceOptions": x }),
        A::Candidate(c) => one(
            "Candidate",
            json!({
                "foundation": c.foundation, "component": c.component,
                "transport": match c.transport {
                    SdpAttributeCandidateTransport::Udp => "Udp",
                    SdpAttributeCandidateTransport::Tcp => "Tcp",
                },
                "priority": c.priority, "address": addr(&c.address), "port": c.port,
                "c_type": match c.c_type {
                    SdpAttributeCandidateType::Host => "Host",
                    SdpAttributeCandidateType::Srflx => "Srflx",
                    SdpAttributeCandidateType::Prflx => "Prflx",
                    SdpAttributeCandidateType::Relay => "Relay",
                },
                "raddr": opt(&c.raddr, addr), "rport": c.rport,
                "tcp_type": opt(&c.tcp_type, |t| json!(match t {
                    SdpAttributeCandidateTcpType::Active => "Active",
                    SdpAttributeCandidateTcpType::Passive => "Passive",
                    SdpAttributeCandidateTcpType::Simultaneous => "Simultaneous",
                })),
                "generation": c.generation, "ufrag": c.ufrag, "networkcost": c.networkcost,
                "unknown_extensions": list(&c.unknown_extensions, |(a, b)| json!([a, b])),
            }),
        ),
        A::DtlsMessage(d) => one(
            "DtlsMessage",
            match d {
                SdpAttributeDtlsMessage::Client(m) => json!({ "Client": m }),
                SdpAttributeDtlsMessage::Server(m) => json!({ "Server": m }),
            },
        ),
        A::Extmap(e) => one(
            "Extmap",
            json!({
                "id": e.id,
                "direction": opt(&e.direction, |d| json!(match d {
                    SdpAttributeDirection::Recvonly => "Recvonly",
                    SdpAttributeDirection::Sendonly => "Sendonly",
                    SdpAttributeDirection::Sendrecv => "Sendrecv",
                })),
                "url": e.url, "extension_attributes": e.extension_attributes,
            }),
        ),
        A::Fingerprint(f) => one(
            "Fingerprint",
            json!({
                "hash_algorithm": match f.hash_algorithm {
                    SdpAttributeFingerprintHashType::Sha1 => "Sha1",
                    SdpAttributeFingerprintHashType::Sha224 => "Sha224",
                    SdpAttributeFingerprintHashType::Sha256 => "Sha256",
                    SdpAttributeFingerprintHashType::Sha384 => "Sha384",
                    SdpAttributeFingerprintHashType::Sha512 => "Sha512",
                },
                "fingerprint": f.fingerprint,
            }),
        ),
        A::Fmtp(f) => {
            let p = &f.parameters;
            let q = json!({
                "packetization_mode": p.packetization_mode, "level_asymmetry_allowed": p.level_asymmetry_allowed,
                "profile_level_id": p.profile_level_id, "max_fs": p.max_fs, "max_cpb": p.max_cpb, "max_dpb": p.max_dpb,
                "max_br": p.max_br, "max_mbps": p.max_mbps, "max_fr": p.max_fr, "profile": p.profile, "level_idx": p.level_idx,
                "tier": p.tier, "maxplaybackrate": p.maxplaybackrate, "maxaveragebitrate": p.maxaveragebitrate,
                "usedtx": p.usedtx, "stereo": p.stereo, "useinbandfec": p.useinbandfec, "cbr": p.cbr, "ptime": p.ptime,
                "minptime": p.minptime, "maxptime": p.maxptime, "encodings": p.encodings, "dtmf_tones": p.dtmf_tones,
                "rtx": opt(&p.rtx, |r| json!({"apt": r.apt, "rtx_time": r.rtx_time})), "unknown_tokens": p.unknown_tokens,
            });
            json!({"Fmtp": {"payload_type": f.payload_type, "parameters": q}})
        }
        A::Group(g) => one(
            "Group",
            json!({
                "semantics": match g.semantics {
                    SdpAttributeGroupSemantic::LipSynchronization => "LipSynchronization",
                    SdpAttributeGroupSemantic::FlowIdentification => "FlowIdentification",
                    SdpAttributeGroupSemantic::SingleReservationFlow => "SingleReservationFlow",
                    SdpAttributeGroupSemantic::AlternateNetworkAddressType => "AlternateNetworkAddressType",
                    SdpAttributeGroupSemantic::ForwardErrorCorrection => "ForwardErrorCorrection",
                    SdpAttributeGroupSemantic::DecodingDependency => "DecodingDependency",
                    SdpAttributeGroupSemantic::Bundle => "Bundle",
                },
                "tags": g.tags,
            }),
        ),
        A::ImageAttr(i) => json!({"ImageAttr": {"pt": pt(&i.pt), "send": sets(&i.send), "recv": sets(&i.recv)}}),
        A::Msid(m) => json!({"Msid": {"id": m.id, "appdata": m.appdata}}),
        A::MsidSemantic(m) => json!({"MsidSemantic": {"semantic": m.semantic, "msids": m.msids}}),
        A::Rid(r) => {
            let p = &r.params;
            json!({"Rid": {
                "id": r.id,
                "direction": match r.direction {
                    SdpSingleDirection::Send => "Send",
                    SdpSingleDirection::Recv => "Recv",
                },
                "formats": r.formats,
                "params": {"max_width": p.max_width, "max_height": p.max_height, "max_fps": p.max_fps, "max_fs": p.max_fs,
                           "max_br": p.max_br, "max_pps": p.max_pps, "unknown": p.unknown},
                "depends": r.depends,
            }})
        }
        A::RemoteCandidate(r) => json!({"RemoteCandidate": {"component": r.component, "address": addr(&r.address), "port": r.port}}),
        A::Rtpmap(r) => json!({"Rtpmap": {"payload_type": r.payload_type, "codec_name": r.codec_name, "frequency": r.frequency, "channels": r.channels}}),
        A::Rtcp(r) => json!({"Rtcp": {"port": r.port, "unicast_addr": opt(&r.unicast_addr, taddr)}}),
        A::Rtcpfb(r) => json!({"Rtcpfb": {
            "payload_type": pt(&r.payload_type),
            "feedback_type": match r.feedback_type {
                SdpAttributeRtcpFbType::Ack => "Ack",
                SdpAttributeRtcpFbType::Ccm => "Ccm",
                SdpAttributeRtcpFbType::Nack => "Nack",
                SdpAttributeRtcpFbType::TrrInt => "TrrInt",
                SdpAttributeRtcpFbType::Remb => "Remb",
                SdpAttributeRtcpFbType::TransCc => "TransCc",
            },
            "parameter": r.parameter, "extra": r.extra,
        }}),
        A::Sctpmap(x) => json!({"Sctpmap": {"port": x.port, "channels": x.channels}}),
        A::Setup(x) => json!({"Setup": match x {
            SdpAttributeSetup::Active => "Active",
            SdpAttributeSetup::Actpass => "Actpass",
            SdpAttributeSetup::Holdconn => "Holdconn",
            SdpAttributeSetup::Passive => "Passive",
        }}),
        A::Simulcast(x) => json!({"Simulcast": {"send": sims(&x.send), "receive": sims(&x.receive)}}),
        A::Ssrc(x) => one("Ssrc", ssrc(x)),
        A::SsrcGroup(g, v) => json!({"SsrcGroup": [
            match g {
                SdpSsrcGroupSemantic::Duplication => "Duplication",
                SdpSsrcGroupSemantic::FlowIdentification => "FlowIdentification",
                SdpSsrcGroupSemantic::ForwardErrorCorrection => "ForwardErrorCorrection",
                SdpSsrcGroupSemantic::ForwardErrorCorrectionFr => "ForwardErrorCorrectionFr",
                SdpSsrcGroupSemantic::Sim => "Sim",
            },
            list(v, ssrc),
        ]}),
    }
}
/// Compares the JSON text of a value with what it must be.
pub fn same(x: &impl serde::Serialize, want: &Value) -> Result<(), String> {
    let t = serde_json::to_string(x).map_err(|e| format!("not serializable: {e}"))?;
    let got: Value = serde_json::from_str(&t).map_err(|e| format!("not JSON: {e}: {t}"))?;
    if &got != want {
        return Err(format!("JSON form {t} instead of {want}"));
    }
    Ok(())
}
