//! Every combination of fill, alignment, `#`, `0`, width and precision, for the four formatting traits.
use std::fmt::{Debug, Display, LowerHex, UpperHex};

macro_rules! spec {
    ($d:ident, $l:ident, $u:ident, $g:ident, $q:ident, $w:ident, $p:ident, $pre:literal) => {
        match ($q[0], $p) {
            ("display", None) => format!(concat!("{:", $pre, "w$}"), $d, w = $w),
            ("lower", None) => format!(concat!("{:", $pre, "w$x}"), $l, w = $w),
            ("upper", None) => format!(concat!("{:", $pre, "w$X}"), $u, w = $w),
            ("debug", None) => format!(concat!("{:", $pre, "w$?}"), $g, w = $w),
            ("display", Some(p)) => format!(concat!("{:", $pre, "w$.p$}"), $d, w = $w, p = p),
            ("lower", Some(p)) => format!(concat!("{:", $pre, "w$.p$x}"), $l, w = $w, p = p),
            ("upper", Some(p)) => format!(concat!("{:", $pre, "w$.p$X}"), $u, w = $w, p = p),
            ("debug", Some(p)) => format!(concat!("{:", $pre, "w$.p$?}"), $g, w = $w, p = p),
            _ => panic!("trait"),
        }
    };
}
macro_rules! flags {
    ($d:ident, $l:ident, $u:ident, $g:ident, $q:ident, $w:ident, $p:ident, $pre:literal) => {
        match ($q[3], $q[4]) {
            ("0", "0") => spec!($d, $l, $u, $g, $q, $w, $p, $pre),
            ("1", "0") => flags!(@ $d, $l, $u, $g, $q, $w, $p, $pre, "#"),
            ("0", "1") => flags!(@ $d, $l, $u, $g, $q, $w, $p, $pre, "0"),
            ("1", "1") => flags!(@ $d, $l, $u, $g, $q, $w, $p, $pre, "#0"),
            _ => panic!("flags"),
        }
    };
    (@ $d:ident, $l:ident, $u:ident, $g:ident, $q:ident, $w:ident, $p:ident, $pre:literal, $f:literal) => {
        match ($q[0], $p) {
            ("display", None) => format!(concat!("{:", $pre, $f, "w$}"), $d, w = $w),
            ("lower", None) => format!(concat!("{:", $pre, $f, "w$x}"), $l, w = $w),
            ("upper", None) => format!(concat!("{:", $pre, $f, "w$X}"), $u, w = $w),
            ("debug", None) => format!(concat!("{:", $pre, $f, "w$?}"), $g, w = $w),
            ("display", Some(p)) => format!(concat!("{:", $pre, $f, "w$.p$}"), $d, w = $w, p = p),
            ("lower", Some(p)) => format!(concat!("{:", $pre, $f, "w$.p$x}"), $l, w = $w, p = p),
            ("upper", Some(p)) => format!(concat!("{:", $pre, $f, "w$.p$X}"), $u, w = $w, p = p),
            ("debug", Some(p)) => format!(concat!("{:", $pre, $f, "w$.p$?}"), $g, w = $w, p = p),
            _ => panic!("trait"),
        }
    };
}
/// q: trait, fill (code point), align (n, l, c, r), alt, zero, width or -, precision or -
pub fn text(d: &dyn Display, l: &dyn LowerHex, u: &dyn UpperHex, g: &dyn Debug, q: &[&str]) -> String {
    let p: Option<usize> = if q[6] == "-" { None } else { Some(q[6].parse().unwrap()) };
    if q[5] == "-" {
        return match (q[0], q[3], p) {
            ("display", "0", None) => format!("{}", d),
            ("lower", "0", None) => format!("{:x}", l),
            ("upper", "0", None) => format!("{:X}", u),
            ("debug", "0", None) => format!("{:?}", g),
            ("display", _, None) => format!("{:#}", d),
            ("lower", _, None) => format!("{:#x}", l),
            ("upper", _, None) => format!("{:#X}", u),
            ("debug", _, None) => format!("{:#?}", g),
            ("display", "0", Some(p)) => format!("{:.p$}", d, p = p),
            ("lower", "0", Some(p)) => format!("{:.p$x}", l, p = p),
            ("upper", "0", Some(p)) => format!("{:.p$X}", u, p = p),
            ("debug", "0", Some(p)) => format!("{:.p$?}", g, p = p),
            ("display", _, Some(p)) => format!("{:#.p$}", d, p = p),
            ("lower", _, Some(p)) => format!("{:#.p$x}", l, p = p),
            ("upper", _, Some(p)) => format!("{:#.p$X}", u, p = p),
            ("debug", _, Some(p)) => format!("{:#.p$?}", g, p = p),
            _ => panic!("trait"),
        };
    }
    let w: usize = q[5].parse().unwrap();
    match (q[1], q[2]) {
        (_, "n") => flags!(d, l, u, g, q, w, p, ""),
        ("32", "l") => flags!(d, l, u, g, q, w, p, "<"),
        ("32", "c") => flags!(d, l, u, g, q, w, p, "^"),
        ("32", "r") => flags!(d, l, u, g, q, w, p, ">"),
        ("42", "l") => flags!(d, l, u, g, q, w, p, "*<"),
        ("42", "c") => flags!(d, l, u, g, q, w, p, "*^"),
        ("42", "r") => flags!(d, l, u, g, q, w, p, "*>"),
        ("48", "l") => flags!(d, l, u, g, q, w, p, "0<"),
        ("48", "c") => flags!(d, l, u, g, q, w, p, "0^"),
        ("48", "r") => flags!(d, l, u, g, q, w, p, "0>"),
        ("233", "l") => flags!(d, l, u, g, q, w, p, "é<"),
        ("233", "c") => flags!(d, l, u, g, q, w, p, "é^"),
        ("233", "r") => flags!(d, l, u, g, q, w, p, "é>"),
        _ => panic!("fill/align"),
    }
}
