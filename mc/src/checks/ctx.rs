//! Documents in which one thing is at stake (a fault, a rule, a line) and something else, the
//! context, takes every value of its alphabet: rules must not depend on what they are not about.
use crate::alpha::*;
use crate::refparse;

/// One choice of everything that a rule is not about.
#[derive(Clone)]
pub struct Ctx {
    pub origin: String,
    pub name: String,
    pub timing: String,
    pub conn: String,
    pub sess: String,
    pub mline: String,
    pub med: String,
}
fn plain(mline: &str) -> Ctx {
    Ctx {
        origin: "- 1 2 IN IP4 127.0.0.1".into(),
        name: "-".into(),
        timing: "0 0".into(),
        conn: "IN IP4 10.9.9.9".into(),
        sess: String::new(),
        mline: mline.into(),
        med: String::new(),
    }
}

/// Media lines of every kind, transport, port class, port count and format list.
pub fn mlines(all: bool) -> Vec<String> {
    let mut v = vec![];
    for k in ["audio", "video", "application"] {
        for p in refparse::PROTOS {
            for port in ["9", "0", "1", "65535"] {
                for c in ["", "/0", "/1", "/2"] {
                    for f in ["0", "96", "97 96 0", "webrtc-datachannel", "5000", "0 x 65535 096"] {
                        if !all && (c == "/1" || port == "1" || (c != "" && f.len() > 2) || f == "5000") {
                            continue;
                        }
                        let l = format!("m={k} {port}{c} {p} {f}");
                        if refparse::line_all(&l).is_ok() {
                            v.push(l + "\r\n");
                        }
                    }
                }
            }
        }
    }
    v
}

pub fn contexts(all: bool) -> Vec<Ctx> {
    let mut v = vec![];
    for m in mlines(all) {
        v.push(plain(&m));
    }
    for a in samples() {
        let n = attr_name(&a);
        let n = n.as_str();
        if !refparse::MEDIA_ONLY.contains(&n) {
            for m in [MLINE, MLINE2] {
                v.push(Ctx { sess: format!("a={a}\r\n"), ..plain(m) });
            }
        }
        if !refparse::SESSION_ONLY.contains(&n) {
            let help: String = rid_helpers(&[&a]).iter().map(|x| format!("a={x}\r\n")).collect();
            for m in [MLINE, MLINE2, "m=audio 0 RTP/AVP 0\r\n"] {
                let pt = m.starts_with("m=audio") && a.contains("pt=");
                if !pt {
                    v.push(Ctx { med: format!("a={a}\r\n{help}"), ..plain(m) });
                }
            }
        }
    }
    for b in ["AS:0", "AS:1", "CT:4294967295", "TIAS:0", "RS:0", "RR:0", "X-y:7"] {
        v.push(Ctx { sess: format!("b={b}\r\n"), ..plain(MLINE) });
        v.push(Ctx { med: format!("b={b}\r\n"), ..plain(MLINE) });
        v.push(Ctx { med: format!("b={b}\r\nb={b}\r\n"), ..plain(MLINE2) });
    }
    for h in HOSTS {
        for net in ["IP4", "IP6"] {
            for ttl in ["", "/0", "/127/3"] {
                let c = format!("IN {net} {h}{ttl}");
                if refparse::line_all(&format!("c={c}")).is_ok() {
                    v.push(Ctx { conn: c, ..plain(MLINE) });
                }
            }
            for u in ["-", "u"] {
                let o = format!("{u} 0 0 IN {net} {h}");
                if refparse::line_all(&format!("o={o}")).is_ok() {
                    v.push(Ctx { origin: o, ..plain(MLINE) });
                }
            }
        }
    }
    for t in ["0 1", "1 0", "3724394400 3724398000", "18446744073709551615 0", "5 4"] {
        v.push(Ctx { timing: t.into(), ..plain(MLINE) });
    }
    for n in ["", " ", "name", "a b", "é", "-  -", "s=x"] {
        v.push(Ctx { name: n.into(), ..plain(MLINE) });
    }
    v
}

/// How often the timing, the session connection and the connection of a section occur (0..=2 each),
/// as one number below 27.
pub const SHAPES: usize = 27;
/// Where the section of the context stands: alone, first, second, twice.
pub const ARRS: usize = 4;

impl Ctx {
    pub fn head(&self, t: usize, c: usize) -> String {
        format!(
            "v=0\r\no={}\r\ns={}\r\n{}{}{}",
            self.origin,
            self.name,
            format!("t={}\r\n", self.timing).repeat(t),
            format!("c={}\r\n", self.conn).repeat(c),
            self.sess
        )
    }
    /// `fault` stands in the session part or in a section, before or after the lines of the context.
    pub fn doc(&self, shape: usize, arr: usize, sess_fault: &str, med_fault: &str, before: bool) -> String {
        let (t, c, m) = (shape % 3, shape / 3 % 3, shape / 9);
        let own = format!("c={}\r\n", self.conn);
        let sec = |n: usize, f: &str| {
            let (x, y) = if before { (f, "") } else { ("", f) };
            format!("{}{}{x}{}{y}", self.mline, own.repeat(n), self.med)
        };
        let other = "m=audio 7 RTP/AVP 0\r\nc=IN IP4 10.7.7.7\r\na=mid:o\r\n";
        let head = if before {
            let h = self.head(t, c);
            let at = h.len() - self.sess.len();
            format!("{}{sess_fault}{}", &h[..at], self.sess)
        } else {
            format!("{}{sess_fault}", self.head(t, c))
        };
        match arr {
            0 => format!("{head}{}", sec(m, med_fault)),
            1 => format!("{head}{}{other}", sec(m, med_fault)),
            2 => format!("{head}{other}{}", sec(m, med_fault)),
            _ => format!("{head}{}{}", sec(1, ""), sec(m, med_fault)),
        }
    }
}
/// The shape of an ordinary document: one timing and one session connection.
pub const USUAL: usize = 4;
/// One timing, and a connection in the section only.
pub const OWN_CONN: usize = 1 + 9;
