//! The checks, one per property.
use crate::engine::*;
use crate::model::*;
use crate::{proj, refparse};

mod addresses;
mod anon;
mod api;
mod built;
mod configs;
mod ctx;
mod docs;
mod entry;
mod equiv;
mod history;
mod mask;
mod numbers;
mod robust;
mod roundtrip;
mod text;

pub fn all() -> Vec<&'static dyn Check> {
    vec![
        &robust::C01,
        &roundtrip::C02,
        &docs::C03,
        &docs::C04,
        &docs::C05,
        &docs::C06,
        &docs::C07,
        &docs::C08,
        &equiv::C09,
        &text::C10,
        &text::C11,
        &text::C12,
        &text::C13,
        &text::C14,
        &text::C15,
        &text::C16,
        &numbers::C17,
        &addresses::C18,
        &anon::C19,
        &mask::C20,
        &api::C21,
        &api::C22,
        &history::C23,
        &configs::C24,
        &built::C25,
        &entry::C26,
    ]
}

/// Sub-commands that only one check uses.
pub fn special(what: &str, args: &[String]) -> Option<i32> {
    match what {
        "observe" => Some(history::observe(args)),
        "threads" => Some(history::threads(args)),
        "edits" => Some(history::edits(args)),
        "sizes" => Some(history::sizes(args)),
        "transcript" => Some(configs::transcript(args)),
        _ => None,
    }
}

/// Compares what the crate makes of a single attribute with the reference.
pub fn attr_verdict(text: &str) -> Verdict {
    let want = refparse::attr(text);
    let got = proj::parse_attr(text);
    trans(1);
    trace();
    state(&(&got, 0u8));
    cmp("attribute", &want, &got)?;
    line_verdict(&format!("a={text}"))
}
pub fn line_verdict(text: &str) -> Verdict {
    let want = refparse::line_all(text);
    let got = proj::parse_line(text);
    trans(1);
    trace();
    state(&got);
    match (&want, &got) {
        (Ok(a), Ok(b)) if a == b => Ok("read"),
        (Err(a), Err(b)) if a.contains(b) => Ok(if *b == Cls::Err { "refused" } else { "unsupported" }),
        _ => Err(format!("line: expected {want:?}, found {got:?}")),
    }
}
pub fn cmp(what: &str, want: &Result<V, Cls>, got: &Result<V, Cls>) -> Result<(), String> {
    if want == got {
        Ok(())
    } else {
        Err(format!("{what}: expected {want:?}, found {got:?}"))
    }
}
/// Compares both parsing modes on a document with the reference.
pub fn doc_verdict(text: &str) -> Verdict {
    let mut label = "";
    for strict in [false, true] {
        let want = refparse::doc(text, strict);
        let got = proj::parse(text, strict);
        trans(1);
        trace();
        state(&out_key(&got));
        let l = refparse::agrees(&want, &got)
            .map_err(|e| format!("{}: {e}", if strict { "strict" } else { "lenient" }))?;
        if label.is_empty() {
            label = l;
        }
    }
    Ok(label)
}
pub fn out_key(o: &Out) -> u64 {
    match o {
        Out::Ok(s, w) => hash(&(s, w)),
        Out::Line(l) => hash(&(1, l)),
        Out::Unsup(l) => hash(&(2, l)),
        Out::Seq(n) => hash(&(3, n)),
    }
}
/// The numbers of list elements to try.
pub fn lens(e: &Engine) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=40).collect();
    v.extend([63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 513, 1000]);
    v.extend(crate::alpha::source().1.iter().filter(|n| **n <= 1000).flat_map(|n| [*n as usize, *n as usize + 1, (*n as usize).saturating_sub(1)]));
    v.sort_unstable();
    v.dedup();
    if e.thorough() {
        v.extend(41..400);
        v.extend([1023, 1024, 1025, 4095, 4096, 4097, 10000]);
        v.sort_unstable();
        v.dedup();
    }
    if e.pick3(false, false, true) {
        v.extend(400..1300);
        v.sort_unstable();
        v.dedup();
    }
    v
}
