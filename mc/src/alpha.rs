//! The alphabets: what the bounded spaces are built from.

/// Number tokens around every power of two and ten and every documented bound.
pub fn nums() -> Vec<String> {
    let mut v: Vec<u128> = (0..=3).collect();
    v.extend([9, 10, 11, 15, 16, 17, 18, 19, 20, 30, 31, 32, 33, 63, 64, 65, 80, 94, 95, 96, 97]);
    v.extend([99, 100, 101, 110, 126, 127, 128, 129, 130, 199, 200, 254, 255, 256, 257, 300]);
    v.extend([999, 1000, 1023, 1024, 5000, 9999, 10000, 32767, 32768, 48000, 65534, 65535, 65536]);
    v.extend([65537, 99999, 100000, 0xff_fffe, 0xff_ffff, 0x100_0000]);
    for b in [31u32, 32, 33, 53, 63, 64, 65] {
        let p = 1u128 << b;
        v.extend([p - 2, p - 1, p, p + 1]);
    }
    let mut p = 1u128;
    for _ in 0..22 {
        v.extend([p.saturating_sub(1), p]);
        p *= 10;
    }
    v.extend([(1 << 24) + 1, (1 << 25) + 1, 3_333_333_333, 123_456_789, 1_234_567_890_123_456_789]);
    v.extend(source().1.iter().flat_map(|n| [n.saturating_sub(1), *n, n + 1]));
    v.extend([1u128 << 100, (1u128 << 32) + 5, (1u128 << 64) + 5, 65536 + 9, 256 + 7]);
    v.sort_unstable();
    v.dedup();
    let mut s: Vec<String> = v.iter().map(u128::to_string).collect();
    for x in NOT_NUMS {
        s.push((*x).into());
    }
    for x in ["00", "007", "0000000000000000000000000000000000000001", "065535"] {
        s.push(x.into());
    }
    s
}
pub const NOT_NUMS: &[&str] = &[
    "-1", "-0", "-65535", "-4294967296", "1.0", "1.", ".1", "1e3", "0x10", "1a", "a1", "a", "1,2", "1_000", "１",
    "٣", "1-", "--1", "²", "1;",
];

pub const HOSTS: &[&str] = &[
    "1.2.3.4",
    "0.0.0.0",
    "255.255.255.255",
    "224.0.0.1",
    "192.168.10.200",
    "::1",
    "::",
    "fe80::1",
    "FE80::ABCD",
    "2001:db8:85a3::8a2e:370:7334",
    "2001:0db8:0000:0000:0000:0000:0000:0001",
    "::ffff:1.2.3.4",
    "1:2:3:4:5:6:7:8",
    "ff02::fb",
    "example.com",
    "EXAMPLE.Com",
    "a",
    "host-1.example",
    "a.b.c.d.e.local",
    "8f5b2a6e-4c1d-4e8f-9a3b-0c1d2e3f4a5b.local",
    "xn--bcher-kva.example",
    "_x",
    "[::1]",
    "1.2.3",
    "127.1",
    "0x7f.1",
    "1",
    "4294967295",
    "a..b",
    "%61",
];
/// Addresses with a meaning of their own.
pub fn special_addresses() -> Vec<String> {
    SPECIAL.iter().map(|x| x.to_string()).collect()
}
pub const SPECIAL: &[&str] = &[
    "127.0.0.1", "0.0.0.1", "10.0.0.0", "10.255.255.255", "169.254.1.1", "172.16.0.1", "192.168.0.1", "100.64.0.1", "192.0.2.1",
    "198.18.0.1", "203.0.113.1", "224.0.0.0", "239.255.255.255", "240.0.0.1", "255.255.255.254", "::2", "::ffff:0:0", "::7f00:1",
    "fc00::1", "fd00::1", "ff00::", "ff02::1", "100::", "64:ff9b::1", "2002::1", "fe80::", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff",
    "localhost", "local", "x.local", "X.LOCAL", "invalid", "fqdn-00000001", "1.2.3.4.example", "8f5b2a6e-4c1d-4e8f-9a3b-0c1d2e3f4a5b.LOCAL",
];
pub const BAD_HOSTS: &[&str] = &[
    "256.1.1.1",
    "1.2.3.4.5",
    "4294967296",
    "::1::",
    "g::1",
    "1:2:3:4:5:6:7",
    "1:2:3:4:5:6:7:8:9",
    "[::1",
    "::1]",
    "a%",
    "%",
    "a^b",
    "a|b",
    "a<b",
    "a@b",
    "a:80",
    "1.2.3.4:80",
    "::ffff:1.2.3.256",
    "12345::1",
];

/// A token sequence with alternatives per position; the first one is the default.
pub struct Tm {
    pub slots: Vec<Vec<String>>,
}
pub fn tm(slots: &[&[&str]]) -> Tm {
    Tm { slots: slots.iter().map(|s| s.iter().map(|x| x.to_string()).collect()).collect() }
}
/// The mark for a token left out together with its separator.
pub const DROP: &str = "\u{1}";

impl Tm {
    pub fn with(mut self, slot: usize, more: &[String]) -> Tm {
        for m in more {
            if !self.slots[slot].contains(m) {
                self.slots[slot].push(m.clone());
            }
        }
        self
    }
    /// Every slot may also be left out or be doubled.
    pub fn droppable(mut self) -> Tm {
        for s in &mut self.slots {
            let d = format!("{} {}", s[0], s[0]);
            s.push(DROP.into());
            s.push(d);
        }
        self
    }
    pub fn join(&self, pick: &[usize], sep: &str) -> String {
        let v: Vec<&str> =
            pick.iter().zip(&self.slots).map(|(i, s)| s[*i].as_str()).filter(|x| *x != DROP).collect();
        v.join(sep)
    }
    /// All choices with at most `d` slots away from the default.
    pub fn picks(&self, d: usize) -> Vec<Vec<usize>> {
        let mut out = vec![];
        let mut cur = vec![0; self.slots.len()];
        self.rec(0, d, &mut cur, &mut out);
        out
    }
    fn rec(&self, i: usize, d: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if i == self.slots.len() {
            out.push(cur.clone());
            return;
        }
        cur[i] = 0;
        self.rec(i + 1, d, cur, out);
        if d > 0 {
            for k in 1..self.slots[i].len() {
                cur[i] = k;
                self.rec(i + 1, d - 1, cur, out);
            }
            cur[i] = 0;
        }
    }
    pub fn texts(&self, d: usize, sep: &str) -> Vec<String> {
        self.picks(d).iter().map(|p| self.join(p, sep)).collect()
    }
}

/// All sequences over `items` of length `lo..=hi`.
pub fn seqs<T: Clone>(items: &[T], lo: usize, hi: usize) -> Vec<Vec<T>> {
    let mut out = vec![];
    let mut level: Vec<Vec<T>> = vec![vec![]];
    for n in 0..=hi {
        if n >= lo {
            out.extend(level.iter().cloned());
        }
        if n == hi {
            break;
        }
        let mut next = Vec::with_capacity(level.len() * items.len());
        for p in &level {
            for x in items {
                let mut q = p.clone();
                q.push(x.clone());
                next.push(q);
            }
        }
        level = next;
    }
    out
}
/// Number of sequences of length 0..=hi over k items, and the i-th of them as digits.
pub fn seq_count(k: usize, hi: usize) -> usize {
    (0..=hi).map(|n| k.pow(n as u32)).sum()
}
pub fn seq_at(k: usize, mut i: usize) -> Vec<usize> {
    let mut n = 0u32;
    while i >= k.pow(n) {
        i -= k.pow(n);
        n += 1;
    }
    let mut v = vec![0; n as usize];
    for d in v.iter_mut().rev() {
        *d = i % k;
        i /= k;
    }
    v
}

/// Case variants of a text.
pub fn cases(t: &str) -> Vec<String> {
    let alt: String = t
        .chars()
        .enumerate()
        .map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
        .collect();
    let tla: String = t
        .chars()
        .enumerate()
        .map(|(i, c)| if i % 2 == 1 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
        .collect();
    let mut v = vec![t.to_ascii_uppercase(), t.to_ascii_lowercase(), alt, tla];
    v.retain(|x| x != t);
    v.dedup();
    v
}

pub fn fp(n: usize, seed: u8) -> String {
    (0..n)
        .map(|i| format!("{:02X}", (i as u8).wrapping_mul(37).wrapping_add(seed)))
        .collect::<Vec<_>>()
        .join(":")
}

/// Valid attributes of every kind, with every optional part on and off.
pub fn samples() -> Vec<String> {
    let mut v: Vec<String> = crate::refparse::FLAGS.iter().map(|x| x.to_string()).collect();
    let f: &[&str] = &[
        "candidate:0 1 UDP 2122252543 172.16.156.106 49760 typ host",
        "candidate:foundation 256 TCP 9999999999 2001:db8::1 9 typ prflx tcptype active",
        "candidate:1 1 udp 1 host.local 0 typ srflx raddr 10.0.0.1 rport 65535",
        "candidate:1 2 TCP 5 1.2.3.4 9 typ relay raddr fe80::1 rport 1 tcptype so generation 3 ufrag uf+g network-cost 50 ext1 v1 ext2 v2",
        "candidate:2 2 TCP 18446744073709551615 1.2.3.4 1 typ host tcptype passive generation 0",
        "candidate:2 1 UDP 7 1.2.3.4 1 typ host network-id 3 network-cost 10 ufrag abcd",
        "candidate:3 1 UDP 7 1.2.3.4 1 typ srflx rport 9 raddr peer.example foo bar generation 4294967295",
        "candidate:4 1 UDP 7 1.2.3.4 1 typ host a b a b c generation",
        "dtls-message:client SGVsbG8gV29ybGQ=",
        "dtls-message:server AAAA",
        "extmap:1 urn:ietf:params:rtp-hdrext:ssrc-audio-level",
        "extmap:2/sendonly urn:some:extension",
        "extmap:3/recvonly some-uri with extra parameters",
        "extmap:65535/sendrecv http://x.y/z?a=b#c 1",
        "framerate:25",
        "framerate:29.97",
        "framerate:0.1",
        "framerate:-1.5",
        "group:BUNDLE 0 1 2",
        "group:LS",
        "group:FID a",
        "group:SRF x y",
        "group:ANAT 1 2 3 4 5",
        "group:FEC S1 R1",
        "group:DDP L0 L1",
        "ice-options:trickle",
        "ice-options:trickle ice2 renomination",
        "ice-pacing:0",
        "ice-pacing:9999999999",
        "ice-pacing:50",
        "ice-pwd:e3baa26dd2fa5030d881d385f1e36cce",
        "ice-pwd:pass word:=with;all",
        "ice-ufrag:58b99ead",
        "ice-ufrag:a/+b",
        "identity:eyJpZHAiOnsiZG9tYWluIjoiZXhhbXBsZS5vcmcifX0=",
        "identity:a b:c=d",
        "imageattr:* send *",
        "imageattr:120 send * recv *",
        "imageattr:99 recv [x=320,y=240]",
        "imageattr:97 send [x=800,y=640,sar=1.1,q=0.6] [x=480,y=320] recv [x=330,y=250]",
        "imageattr:255 send [x=[480:16:800],y=[320:640],par=[1.2-1.3],q=0.6] [x=[176,208,300],y=[144,176],sar=[0.5,1.5,2.25],par=[1-2]] recv *",
        "imageattr:0 recv [x=1080,y=[144:176],sar=[0.5-0.7]] send [x=1,y=2,q=1] [x=3,y=4,q=0]",
        "label:1",
        "label:track one: x=y",
        "max-message-size:0",
        "max-message-size:65536",
        "max-message-size:18446744073709551615",
        "maxptime:60",
        "maxptime:0",
        "ptime:20",
        "ptime:18446744073709551615",
        "mid:0",
        "mid:sdparta_0",
        "mid:a b",
        "msid:{5a990edd-0568-ac40-8d97-310fc33f3411} {218cfa1c-617d-2249-9997-60929ce4c405}",
        "msid:-",
        "msid-semantic:WMS *",
        "msid-semantic:WMS",
        "msid-semantic:WMS a b c",
        "rid:foo send",
        "rid:hi send pt=96",
        "rid:lo recv pt=96,97;max-width=10;max-height=20;max-fps=30;max-fs=40;max-br=50;max-pps=60;x=y;depends=a,b",
        "rid:3 recv max-fs=4294967295",
        "rid:4 send u=1;v==;depends=foo",
        "rid:5 recv pt=65535,0",
        "remote-candidates:0 10.0.0.1 5555",
        "remote-candidates:4294967295 ::1 0",
        "remote-candidates:1 peer.example 65535",
        "rtpmap:109 opus/48000/2",
        "rtpmap:0 PCMU/8000",
        "rtpmap:127 x/0/4294967295",
        "rtcp:0",
        "rtcp:9 IN IP4 0.0.0.0",
        "rtcp:65535 IN IP6 2001:db8::1",
        "rtcp:1 IN IP6 rtcp.example",
        "rtcp-fb:101 ack rpsi",
        "rtcp-fb:101 ack app extra text",
        "rtcp-fb:101 ccm",
        "rtcp-fb:101 ccm fir",
        "rtcp-fb:101 ccm tmmbr",
        "rtcp-fb:101 ccm tstr",
        "rtcp-fb:101 ccm vbcm 123 456 789",
        "rtcp-fb:* nack",
        "rtcp-fb:255 nack sli",
        "rtcp-fb:0 nack pli",
        "rtcp-fb:1 nack rpsi x",
        "rtcp-fb:1 nack app ! ?",
        "rtcp-fb:* trr-int 4294967295",
        "rtcp-fb:9 goog-remb",
        "rtcp-fb:9 transport-cc",
        "sctpmap:5000 webrtc-datachannel 256",
        "sctpmap:0 webrtc-datachannel 4294967295",
        "sctp-port:5000",
        "sctp-port:65535",
        "setup:active",
        "setup:actpass",
        "setup:holdconn",
        "setup:passive",
        "simulcast:send foo",
        "simulcast:recv lo,~hi;3",
        "simulcast:send foo,hi;~4 recv 5;3,~lo",
        "ssrc:2655508255",
        "ssrc:1 cname:{735484ea-4f6c-f74a-bd66-7425f8476c2e}",
        "ssrc:2 CNAME:abc def",
        "ssrc:3 foo",
        "ssrc:4 foo:bar:baz",
        "ssrc:0 msid:a b",
        "ssrc:4294967295 label:",
        "ssrc-group:FID 3156517279 2673335628",
        "ssrc-group:SIM 1 2 3",
        "ssrc-group:DUP 0",
        "ssrc-group:FEC 1 1",
        "ssrc-group:FEC-FR 4294967295 7",
        "fmtp:109 maxplaybackrate=44100;maxaveragebitrate=510000;stereo=1;useinbandfec=1;cbr=1;usedtx=1;ptime=20;minptime=10;maxptime=60",
        "fmtp:126 profile-level-id=42e01f;level-asymmetry-allowed=1;packetization-mode=1",
        "fmtp:126 profile-level-id=0;max-fs=1;max-cpb=2;max-dpb=3;max-br=4;max-mbps=5;max-fr=6",
        "fmtp:45 profile=0;level-idx=31;tier=1",
        "fmtp:45 profile=2;level-idx=0;tier=0",
        "fmtp:97 apt=96",
        "fmtp:97 apt=255;rtx-time=4294967295",
        "fmtp:97 apt=0;x=1;max-fr=9",
        "fmtp:66 0-15",
        "fmtp:101 0-15,66,70-100",
        "fmtp:121 120/126/123/119",
        "fmtp:121 128/0",
        "fmtp:100 unknown=1;Second=Two;third=",
        "fmtp:100 sprop-parameter-sets=Z0LAH4iAQA==,aM4;max-fs=12288;foo=a/b-c",
        "fmtp:255 x=0",
    ];
    v.extend(f.iter().map(|x| x.to_string()));
    for (h, n) in [("sha-1", 20), ("sha-224", 28), ("sha-256", 32), ("sha-384", 48), ("sha-512", 64)] {
        v.push(format!("fingerprint:{h} {}", fp(n, n as u8)));
    }
    v.push(format!("fingerprint:sha-1 {}", vec!["00"; 20].join(":")));
    v
}

pub fn attr_name(a: &str) -> String {
    a.split(':').next().unwrap().to_ascii_lowercase()
}
/// A document of a session part and one video section, that holds any media-level attribute.
pub fn rid_helpers(a: &[&str]) -> Vec<String> {
    // the rids that a simulcast attribute among `a` needs
    let mut out = vec![];
    if a.iter().any(|x| attr_name(x) == "simulcast") {
        for (id, d) in [("foo", "send"), ("hi", "send"), ("4", "send"), ("lo", "recv"), ("5", "recv"), ("3", "recv"), ("hi", "recv"), ("lo", "send")] {
            out.push(format!("rid:{id} {d}"));
        }
    }
    if a.iter().any(|x| attr_name(x) == "rtcp-mux-only") && !a.contains(&"rtcp-mux") {
        out.push("rtcp-mux".into());
    }
    out
}
pub const HEAD: &str = "v=0\r\no=- 4294967296 2 IN IP4 127.0.0.1\r\ns=-\r\nt=0 0\r\nc=IN IP4 0.0.0.0\r\n";
pub const MLINE: &str = "m=video 9 UDP/TLS/RTP/SAVPF 96 97 0\r\n";
pub const MLINE2: &str = "m=application 9 UDP/DTLS/SCTP webrtc-datachannel 65535 0\r\n";

/// Names that are registered for, or look like, something in a session description.
pub const WORDS: &[&str] = &[
    // hash functions
    "md2", "md5", "sha", "sha1", "sha-0", "sha-1", "sha-128", "sha-160", "sha-2", "sha-224", "sha-256", "sha256", "sha_256", "sha-384", "sha-512",
    "sha-512/224", "sha-512/256", "sha3-256", "sha3-512", "shake128", "shake256", "crc32", "blake2b",
    // media
    "audio", "video", "application", "text", "message", "image", "data", "control", "model", "haptics", "font", "multipart", "*",
    // transports and protocols
    "udp", "UDP", "tcp", "TCP", "tls", "TLS", "dtls", "DTLS", "sctp", "SCTP", "dccp", "quic", "ws", "wss", "ssltcp", "http", "https", "stun", "stuns", "turn",
    "turns", "udplite", "vat", "rtp", "RTP/AVP", "RTP/AVPF", "RTP/SAVP", "RTP/SAVPF", "TCP/RTP/AVP", "TCP/RTP/AVPF", "TCP/TLS/RTP/AVP", "TCP/TLS/RTP/SAVPF",
    "UDP/TLS/RTP/AVP", "UDP/TLS/RTP/AVPF", "UDP/TLS/RTP/SAVP", "UDP/TLS/RTP/SAVPF", "TCP/DTLS/RTP/AVP", "TCP/DTLS/RTP/SAVP", "TCP/DTLS/RTP/SAVPF",
    "UDP/DTLS/RTP/SAVPF", "DTLS/SCTP", "UDP/DTLS/SCTP", "TCP/DTLS/SCTP", "TCP/TLS/SCTP", "SCTP/DTLS", "TCP/MSRP", "TCP/TLS/MSRP", "TCP/BFCP", "UDP/BFCP",
    "udptl", "UDP/TLS/UDPTL", "RTP/AVPFF", "RTP", "AVP", "SAVPF",
    // networks and addresses
    "IN", "TN", "ATM", "PSTN", "NSAP", "IP", "IP4", "IP5", "IP6", "IPv4", "IPv6", "E164", "X121", "GWID", "4", "6", "localhost", "0.0.0.0", "::", "[::]", "255.255.255.255",
    // candidates
    "typ", "type", "host", "srflx", "prflx", "relay", "relayed", "local", "reflexive", "raddr", "rport", "laddr", "lport", "tcptype", "active", "passive", "actpass",
    "so", "simultaneous-open", "holdconn", "existing", "new", "generation", "ufrag", "pwd", "network-id", "network-cost", "networkid", "priority", "foundation", "component",
    // groups
    "BUNDLE", "LS", "FID", "SRF", "ANAT", "FEC", "DDP", "CS", "CLUE", "DUP", "SIM", "FEC-FR", "FEC-XR", "XR", "SIMULCAST", "WMS", "wms", "all",
    // feedback
    "ack", "nack", "ccm", "trr-int", "trr", "rrtr", "goog-remb", "goog-lntf", "remb", "transport-cc", "transport-cc-v2", "rpsi", "app", "pli", "sli", "ecn", "fir", "tmmbr",
    "tmmbn", "tstr", "tstn", "vbcm", "psei", "rai", "tllei", "pslei", "none", "generic",
    // bandwidth
    "AS", "CT", "TIAS", "RS", "RR", "X-AS", "AS2", "TIA", "MODIFIER",
    // directions
    "send", "recv", "sendonly", "recvonly", "sendrecv", "inactive", "sendrec", "receive", "both", "in", "out", "bidirectional",
    // codecs and their parameters
    "opus", "OPUS", "PCMU", "PCMA", "G722", "CN", "VP8", "VP9", "AV1", "AV1X", "H264", "H265", "red", "ulpfec", "flexfec-03", "rtx", "telephone-event", "L16", "isac",
    "apt", "rtx-time", "profile-level-id", "level-asymmetry-allowed", "packetization-mode", "max-fs", "max-fr", "max-br", "max-mbps", "max-cpb", "max-dpb", "max-smbps",
    "max-rcmd-nalu-size", "max-bpp", "maxplaybackrate", "sprop-maxcapturerate", "maxaveragebitrate", "stereo", "sprop-stereo", "useinbandfec", "usedtx", "cbr",
    "minptime", "x-google-start-bitrate", "x-google-min-bitrate", "profile-id", "profile", "level-idx", "tier", "tier-flag", "level-id", "tx-mode", "sprop-parameter-sets",
    "sprop-vps", "streamtype", "mode", "bitrate", "octet-align", "events", "emphasis", "vbr", "annexb",
    // restrictions
    "pt", "max-width", "max-height", "max-fps", "max-pps", "depends", "x", "y", "w", "h", "sar", "par", "q", "min-width", "max-bitrate",
    // sctp
    "webrtc-datachannel", "webrtc-datachannels", "t38", "t140", "label", "subprotocol", "max-retr", "max-time", "ordered", "client", "server", "streams",
    // names of attributes
    "bundle-only", "candidate", "cname", "crypto", "dcmap", "dcsa", "dtls-id", "dtls-message", "tls-id", "end-of-candidates", "extmap", "extmap-allow-mixed",
    "fingerprint", "fmtp", "framerate", "framesize", "group", "ice-lite", "ice-mismatch", "ice-options", "ice-pacing", "ice-pwd", "ice-ufrag", "identity", "imageattr",
    "maxptime", "max-message-size", "mid", "msid", "msid-semantic", "mslabel", "ptime", "previous-ssrc", "rid", "remote-candidates", "rtcp", "rtcp-fb", "rtcp-mux",
    "rtcp-mux-only", "rtcp-rsize", "rtcp-xr", "rtpmap", "sctpmap", "sctp-port", "setup", "connection", "simulcast", "ssrc", "ssrc-group", "source-filter", "tool", "cat",
    "keywds", "orient", "charset", "sdplang", "lang", "quality", "content", "key-mgmt", "mptime", "rtcp-unicast", "ice", "ice2", "trickle", "renomination", "rtp+ecn",
    // values
    "-", "0", "00", "1", "01", "-1", "1.0", "true", "false", "yes", "no", "on", "off", "null", "undefined", "default", "unknown", "any", "optional", "a", "é",
];
pub const SUFFIXES: &[&str] = &["/256", "/1", "-1", "-x", "x", "s", "0", "1", "256", ".0", ".1", "=1", ":1", ",1", ";1", ",a", ";a=1", " 1", " a", "-03", "+", "*", "F", "/"];
/// The words as they stand, in upper and in lower case, and those of the code itself.
pub fn words() -> Vec<String> {
    let all = WORDS.iter().map(|w| w.to_string()).chain(source().0.iter().cloned());
    let mut v: Vec<String> = all.flat_map(|w| [w.to_ascii_uppercase(), w.to_ascii_lowercase(), w]).collect();
    v.sort();
    v.dedup();
    v
}

/// The words and the numbers that stand literally in the code under test: what a special case of
/// some value would be written with. They only widen the alphabets; no verdict depends on them.
pub fn source() -> &'static (Vec<String>, Vec<u128>) {
    static S: std::sync::OnceLock<(Vec<String>, Vec<u128>)> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let toml = include_str!("../Cargo.toml");
        let at = toml.lines().find_map(|l| l.strip_prefix("webrtc-sdp = { path = \"")).and_then(|l| l.split('"').next());
        let dir = std::path::Path::new(at.unwrap_or("/repo")).join("src");
        let mut files: Vec<_> = std::fs::read_dir(dir).map(|d| d.flatten().map(|f| f.path()).collect()).unwrap_or_default();
        files.sort();
        let (mut w, mut n) = (vec![], vec![]);
        for f in files {
            let name = f.to_string_lossy().to_string();
            if name.ends_with(".rs") && !name.ends_with("_tests.rs") {
                literals(&std::fs::read_to_string(f).unwrap_or_default(), &mut w, &mut n);
            }
        }
        w.sort();
        w.dedup();
        w.truncate(600);
        n.sort_unstable();
        n.dedup();
        n.truncate(100);
        (w, n)
    })
}
fn literals(t: &str, words: &mut Vec<String>, nums: &mut Vec<u128>) {
    let c: Vec<char> = t.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or(' ');
    let mut text = |s: &str| {
        if s.matches(' ').count() > 2 {
            return; // a message
        }
        for x in s.split(|c: char| c.is_whitespace() || c == '{' || c == '}') {
            for x in [x, x.trim_matches(|c| ":;=,/".contains(c))] {
                let plus = x.starts_with('+') || x.to_ascii_lowercase().contains("nan");
                if !x.is_empty() && x.len() <= 60 && x.chars().all(|c| c.is_ascii_graphic()) && !plus {
                    words.push(x.to_string());
                }
            }
        }
    };
    let mut i = 0;
    while i < c.len() {
        match at(i) {
            '/' if at(i + 1) == '/' => {
                while i < c.len() && at(i) != '\n' {
                    i += 1;
                }
            }
            '/' if at(i + 1) == '*' => {
                while i < c.len() && !(at(i) == '*' && at(i + 1) == '/') {
                    i += 1;
                }
            }
            '"' => {
                let mut s = String::new();
                i += 1;
                while i < c.len() && at(i) != '"' {
                    if at(i) == '\\' {
                        i += 1;
                        s.push(' ');
                    } else {
                        s.push(at(i));
                    }
                    i += 1;
                }
                text(&s);
            }
            '\'' if at(i + 2) == '\'' => {
                text(&at(i + 1).to_string());
                i += 2;
            }
            x if x.is_alphanumeric() || x == '_' => {
                let mut s = String::new();
                while at(i).is_alphanumeric() || at(i) == '_' || (at(i) == '.' && at(i + 1).is_ascii_digit() && x.is_ascii_digit()) {
                    s.push(at(i));
                    i += 1;
                }
                if x.is_ascii_digit() {
                    let s = s.replace('_', "");
                    let n = if let Some(h) = s.strip_prefix("0x") {
                        let h: String = h.chars().take_while(char::is_ascii_hexdigit).collect();
                        u128::from_str_radix(&h, 16).ok()
                    } else {
                        let d: String = s.chars().take_while(char::is_ascii_digit).collect();
                        if s.contains('.') {
                            text(&s);
                        }
                        d.parse().ok()
                    };
                    nums.extend(n.filter(|n| *n < 1 << 65));
                }
                continue;
            }
            _ => {}
        }
        i += 1;
    }
}
