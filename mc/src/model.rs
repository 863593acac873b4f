//! Boring model values. Everything observable of a session is one of these trees.
use std::fmt;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum V {
    No,
    U(u128),
    F(u64),
    S(String),
    B(bool),
    L(Vec<V>),
    T(&'static str, Vec<V>),
}
pub use V::*;

impl fmt::Debug for V {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            No => write!(f, "-"),
            U(x) => write!(f, "{x}"),
            F(x) => write!(f, "{}f", f64::from_bits(*x)),
            S(x) => write!(f, "{x:?}"),
            B(x) => write!(f, "{x}"),
            L(x) => f.debug_list().entries(x).finish(),
            T(n, x) => {
                write!(f, "{n}")?;
                if !x.is_empty() {
                    let mut t = f.debug_tuple("");
                    for y in x {
                        t.field(y);
                    }
                    t.finish()?;
                }
                Ok(())
            }
        }
    }
}

pub fn u<N: TryInto<u128>>(n: N) -> V {
    match n.try_into() {
        Ok(x) => U(x),
        Err(_) => T("bad-int", vec![]),
    }
}
pub fn s(x: &str) -> V {
    S(x.to_string())
}
pub fn fl(x: f64) -> V {
    F(if x.is_nan() { f64::NAN.to_bits() } else { x.to_bits() })
}
pub fn opt<T>(o: Option<T>, f: impl Fn(T) -> V) -> V {
    match o {
        Some(x) => T("Some", vec![f(x)]),
        None => No,
    }
}
pub fn some(v: V) -> V {
    T("Some", vec![v])
}
pub fn list<'a, X: 'a>(i: impl IntoIterator<Item = &'a X>, f: impl Fn(&'a X) -> V) -> V {
    L(i.into_iter().map(f).collect())
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Med {
    /// T("m", [kind, port, count, proto, formats])
    pub line: V,
    pub connection: V,
    pub bandwidth: Vec<V>,
    pub attrs: Vec<V>,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Sess {
    pub version: V,
    pub origin: V,
    pub name: V,
    pub connection: V,
    pub bandwidth: Vec<V>,
    pub timing: V,
    pub attrs: Vec<V>,
    pub media: Vec<Med>,
}

/// A line quoted by an error or a warning.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Loc {
    pub number: usize,
    pub text: String,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Cls {
    Err,
    Unsup,
}

/// What parsing a document gave.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Out {
    Ok(Sess, Vec<Loc>),
    Line(Loc),
    Unsup(Loc),
    Seq(usize),
}

impl Out {
    pub fn label(&self) -> &'static str {
        match self {
            Out::Ok(_, w) if w.is_empty() => "accepted",
            Out::Ok(..) => "accepted-with-warnings",
            Out::Line(_) => "line-error",
            Out::Unsup(_) => "unsupported",
            Out::Seq(_) => "sequence-error",
        }
    }
    pub fn ok(&self) -> bool {
        matches!(self, Out::Ok(..))
    }
    pub fn sess(&self) -> Option<&Sess> {
        match self {
            Out::Ok(s, _) => Some(s),
            _ => None,
        }
    }
}

/// First difference between two sessions, for messages.
pub fn diff(a: &Sess, b: &Sess) -> String {
    macro_rules! d {
        ($($f:ident),*) => { $( if a.$f != b.$f { return format!("{}: {:?} vs {:?}", stringify!($f), a.$f, b.$f); } )* };
    }
    d!(version, origin, name, connection, bandwidth, timing);
    if let Some(x) = vdiff(&a.attrs, &b.attrs) {
        return format!("session attributes {x}");
    }
    if a.media.len() != b.media.len() {
        return format!("{} vs {} media sections", a.media.len(), b.media.len());
    }
    for (i, (x, y)) in a.media.iter().zip(&b.media).enumerate() {
        if x.line != y.line {
            return format!("media {i}: {:?} vs {:?}", x.line, y.line);
        }
        if x.connection != y.connection {
            return format!("media {i} connection: {:?} vs {:?}", x.connection, y.connection);
        }
        if x.bandwidth != y.bandwidth {
            return format!("media {i} bandwidth: {:?} vs {:?}", x.bandwidth, y.bandwidth);
        }
        if let Some(x) = vdiff(&x.attrs, &y.attrs) {
            return format!("media {i} attributes {x}");
        }
    }
    "no difference".into()
}

fn vdiff(a: &[V], b: &[V]) -> Option<String> {
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if x != y {
            return Some(format!("[{i}]: {x:?} vs {y:?}"));
        }
    }
    if a.len() != b.len() {
        return Some(format!(
            "count {} vs {} (extra {:?})",
            a.len(),
            b.len(),
            a.get(b.len()).or_else(|| b.get(a.len()))
        ));
    }
    None
}
