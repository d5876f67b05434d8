//! Numbers and short strings that occur in the library's source, as further
//! arguments and surroundings: code that treats a value apart names it.
use simcore::rng::Rng;
use std::collections::BTreeSet;
use std::sync::OnceLock;

#[derive(Default, serde::Serialize, serde::Deserialize)]
pub struct Dict {
    pub ints: Vec<i64>,
    pub floats: Vec<f64>,
    pub strings: Vec<String>,
}

static DICT: OnceLock<(Dict, Dict)> = OnceLock::new();

/// What the source names, and the part of it that it did not name when this
/// was written: what has been changed since deserves most of the tries.
pub fn dict() -> &'static (Dict, Dict) {
    DICT.get_or_init(|| {
        let src = std::env::var("SIM_SOURCES").ok().and_then(|p| std::fs::read(p).ok()).unwrap_or_default();
        let all = scan(&String::from_utf8_lossy(&src));
        let known: Dict = serde_json::from_str(include_str!("known.json")).unwrap_or_default();
        let new = Dict {
            ints: all.ints.iter().filter(|x| !known.ints.contains(x)).cloned().collect(),
            floats: all.floats.iter().filter(|x| !known.floats.contains(x)).cloned().collect(),
            strings: all.strings.iter().filter(|x| !known.strings.contains(x)).cloned().collect(),
        };
        (all, new)
    })
}

/// The strings, new ones repeated until they make up half.
pub fn strings() -> Vec<String> {
    let (all, new) = dict();
    let mut v = all.strings.clone();
    while !new.strings.is_empty() && v.len() < 2 * all.strings.len() {
        v.extend(new.strings.iter().cloned());
    }
    v
}

fn scan(src: &str) -> Dict {
    let (mut ints, mut floats, mut strings) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
    for line in src.lines() {
        let line = line.split("//").next().unwrap_or("");
        for (n, s) in line.split('"').enumerate() {
            if n % 2 == 1 && !s.is_empty() && s.len() <= 32 && s.bytes().all(|c| c.is_ascii_graphic() && !b"{}\\%".contains(&c)) {
                strings.insert(s.to_string());
            }
        }
        let b = line.as_bytes();
        let mut found = vec![];
        let mut k = 0;
        while k < b.len() {
            let fresh = k == 0 || !(b[k - 1].is_ascii_alphanumeric() || b[k - 1] == b'_');
            if !(b[k].is_ascii_digit() && fresh) {
                k += 1;
                continue;
            }
            let from = k;
            while k < b.len() && (b[k].is_ascii_digit() || b[k] == b'_') {
                k += 1;
            }
            if k + 1 < b.len() && b[k] == b'.' && b[k + 1].is_ascii_digit() {
                k += 1;
                while k < b.len() && (b[k].is_ascii_digit() || b[k] == b'_') {
                    k += 1;
                }
            }
            if k + 1 < b.len() && (b[k] | 32) == b'e' && (b[k + 1].is_ascii_digit() || b"+-".contains(&b[k + 1])) {
                k += 2;
                while k < b.len() && b[k].is_ascii_digit() {
                    k += 1;
                }
            }
            found.push(line[from..k].replace('_', ""));
        }
        // rows of coefficients are not what a call is compared with
        if found.len() > 4 {
            continue;
        }
        for s in found {
            if let Ok(x) = s.parse::<i64>() {
                ints.insert(x);
            }
            if let Ok(x) = s.parse::<f64>() {
                if s.bytes().filter(|c| c.is_ascii_digit()).count() <= 10 {
                    floats.insert(x.to_bits());
                }
            }
        }
    }
    Dict {
        ints: ints.into_iter().filter(|x| *x > 2 && *x < 100_000).collect(),
        floats: floats.into_iter().map(f64::from_bits).filter(|x| x.abs() < 1e12 && *x != 0.0).collect(),
        strings: strings.into_iter().collect(),
    }
}

/// A number near one of the source's, in one of the units used there.
pub fn float(r: &mut Rng) -> Option<f64> {
    let (all, new) = dict();
    let d = if r.chance(0.7) && !new.floats.is_empty() { new } else { all };
    if d.floats.is_empty() {
        return None;
    }
    let x = *r.pick(&d.floats);
    let x = match r.below(12) {
        0 => -x,
        1 => x + 1.0,
        2 => x - 1.0,
        3 => x * 86400.0,
        4 => x / 86400.0,
        5 => x.to_radians(),
        6 => x * (1.0 + 1e-12),
        7 => x * (1.0 - 1e-9),
        8 => x * 60.0,
        _ => x,
    };
    Some(x)
}

/// A whole number near one of the source's, within bounds.
pub fn int(r: &mut Rng, min: i64, max: i64) -> Option<i64> {
    let (all, new) = dict();
    for _ in 0..6 {
        let d = if r.chance(0.7) && !new.ints.is_empty() { new } else { all };
        if d.ints.is_empty() {
            break;
        }
        let x = *r.pick(&d.ints) + *r.pick(&[0, 0, 0, 1, -1]);
        if x >= min && x <= max {
            return Some(x);
        }
    }
    None
}
