//! Workload generation: national numbers sampled from the metadata patterns,
//! near misses of them, decorated texts, and metadata documents.

use crate::model::*;
use crate::rng::Rng;
use regex_syntax::hir::{Class, Hir, HirKind};

fn sample(h: &Hir, r: &mut Rng, out: &mut String) {
    match h.kind() {
        HirKind::Empty | HirKind::Look(_) => (),
        HirKind::Literal(l) => out.push_str(std::str::from_utf8(&l.0).unwrap()),
        HirKind::Class(c) => {
            // The patterns are over digits: \d is sampled from the ASCII ones.
            let mut set = vec![];
            if let Class::Unicode(u) = c {
                for d in '0'..='9' {
                    if u.iter().any(|x| x.start() <= d && d <= x.end()) {
                        set.push(d);
                    }
                }
                if set.is_empty() {
                    set.push(u.iter().next().unwrap().start());
                }
            }
            if !set.is_empty() {
                out.push(*r.pick(&set));
            }
        }
        HirKind::Repetition(rep) => {
            let lo = rep.min as usize;
            let hi = rep.max.map_or(lo + 3, |m| m as usize);
            let n = match r.below(4) {
                0 => lo,
                1 => hi,
                _ => r.range(lo, hi),
            };
            for _ in 0..n {
                sample(&rep.sub, r, out);
            }
        }
        HirKind::Capture(c) => sample(&c.sub, r, out),
        HirKind::Concat(v) => v.iter().for_each(|h| sample(h, r, out)),
        HirKind::Alternation(v) => sample(&v[r.below(v.len())], r, out),
    }
}

pub fn hir(rx: &Rx) -> Hir {
    regex_syntax::Parser::new().parse(&rx.bare()).unwrap()
}

/// A string the pattern matches (as far as sampling can tell).
pub fn from_pattern(h: &Hir, r: &mut Rng) -> String {
    let mut s = String::new();
    sample(h, r, &mut s);
    s
}

/// A sampler for one description of one territory.
pub struct Sampler {
    pub terr: usize,
    pub kind: Kind,
    hir: Hir,
}

pub struct Samplers(pub Vec<Sampler>);

impl Samplers {
    pub fn new(m: &Model) -> Samplers {
        let mut v = vec![];
        for (i, t) in m.terrs.iter().enumerate() {
            for (k, d) in t.types() {
                v.push(Sampler { terr: i, kind: k, hir: hir(&d.pattern) });
            }
        }
        Samplers(v)
    }

    /// A number that fits the description, of the given length if it can be
    /// found; `None` if sampling fails (the pattern and lengths disagree).
    pub fn fit(&self, m: &Model, i: usize, len: Option<u16>, r: &mut Rng) -> Option<String> {
        let s = &self.0[i];
        let d = m.terrs[s.terr].desc(s.kind).unwrap();
        for _ in 0..60 {
            let n = from_pattern(&s.hir, r);
            if len.map_or(true, |l| n.len() == l as usize) && d.fits(&n) {
                return Some(n);
            }
        }
        None
    }
}

/// A number close to `nsn`: a digit changed, added, removed or swapped, zeros
/// put in front, or the tail cut.
pub fn near(nsn: &str, r: &mut Rng) -> String {
    let mut b: Vec<u8> = nsn.bytes().collect();
    let d = b'0' + r.below(10) as u8;
    match r.below(9) {
        0 | 1 => {
            let i = r.below(b.len());
            b[i] = d;
        }
        2 => {
            let i = r.below(b.len() + 1);
            b.insert(i, d);
        }
        3 => {
            let i = r.below(b.len());
            b.remove(i);
        }
        4 => b.push(d),
        5 => {
            b.pop();
        }
        6 => {
            for _ in 0..r.range(1, 3) {
                b.insert(0, b'0');
            }
        }
        7 => {
            let (i, j) = (r.below(b.len()), r.below(b.len()));
            b.swap(i, j);
        }
        _ => b[0] = d,
    }
    String::from_utf8(b).unwrap()
}

/// Any digit string of a national number's possible lengths.
pub fn random_nsn(r: &mut Rng) -> String {
    loop {
        let n = r.range(2, 17);
        let mut s = r.digits(n);
        if r.chance(1, 4) {
            let z = r.range(1, 4).min(n - 1);
            s = "0".repeat(z) + &s[z..];
        }
        if storable(&s) {
            return s;
        }
    }
}

/// Whether a national number can hold these digits.
pub fn storable(s: &str) -> bool {
    (2..=17).contains(&s.len())
        && !s.bytes().all(|b| b == b'0')
        && s.parse::<u64>().unwrap() < 1 << 56
}

/// The separators that may stand between digits, without ASCII space.

/// One digit in the given script.
pub fn in_script(c: char, zero: u32) -> char {
    match c.to_digit(10) {
        Some(d) => char::from_u32(zero + d).unwrap(),
        None => c,
    }
}

/// Serialise a model as a metadata document. `style` varies everything that
/// must not matter: white space, comments, attribute order, declarations,
/// ignored elements, ranges in length lists.
pub fn to_xml(m: &Model, r: &mut Rng, fancy: bool) -> String {
    fn attrs(mut v: Vec<(&str, String)>, r: &mut Rng, fancy: bool) -> String {
        if fancy {
            r.shuffle(&mut v);
        }
        v.into_iter()
            .map(|(k, v)| {
                let q = if v.contains('"') || (fancy && !v.contains('\'') && r.chance(1, 3)) { '\'' } else { '"' };
                let sp = if fancy && r.chance(1, 4) { "\n      " } else { " " };
                format!("{sp}{k}={q}{v}{q}")
            })
            .collect()
    }
    fn noise(r: &mut Rng, fancy: bool) -> String {
        if !fancy {
            return "\n".into();
        }
        match r.below(6) {
            0 => "".into(),
            1 => "<!-- a <comment> with markup -->".into(),
            2 => "\n\t \n".into(),
            3 => "  <!---->\n".into(),
            _ => "\n  ".into(),
        }
    }
    fn lens(v: &[u16], r: &mut Rng, fancy: bool) -> String {
        let mut parts = vec![];
        let mut i = 0;
        while i < v.len() {
            let mut j = i;
            while j + 1 < v.len() && v[j + 1] == v[j] + 1 {
                j += 1;
            }
            if j > i && (j - i >= 2 || r.chance(1, 2)) && (!fancy || r.chance(3, 4)) {
                parts.push(format!("[{}-{}]", v[i], v[j]));
                i = j + 1;
            } else {
                parts.push(v[i].to_string());
                i += 1;
            }
        }
        parts.join(if fancy && r.chance(1, 3) { ", " } else { "," })
    }
    let mut o = String::new();
    if fancy && r.chance(1, 3) {
        o.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n");
    }
    if fancy && r.chance(1, 3) {
        o.push_str("<!-- licence -->\n<!DOCTYPE phoneNumberMetadata [ <!ELEMENT territories (territory+)> ]>\n");
    }
    o.push_str("<phoneNumberMetadata>");
    o.push_str(&noise(r, fancy));
    o.push_str("<territories>");
    for t in &m.terrs {
        o.push_str(&noise(r, fancy));
        let mut a = vec![("id", t.id.clone()), ("countryCode", t.code.to_string())];
        let mut opt = |k: &'static str, v: &Option<String>| {
            if let Some(v) = v {
                a.push((k, v.clone()));
            }
        };
        let src = |x: &Option<Rx>| x.as_ref().map(|x| x.src.clone());
        opt("internationalPrefix", &src(&t.idd));
        opt("preferredInternationalPrefix", &t.pref_idd);
        opt("nationalPrefix", &t.np);
        opt("preferredExtnPrefix", &t.pref_ext);
        opt("nationalPrefixForParsing", &src(&t.np_parse));
        opt("nationalPrefixTransformRule", &t.np_transform);
        opt("leadingDigits", &src(&t.leading));
        opt("nationalPrefixFormattingRule", &t.d_np_rule);
        opt("nationalPrefixOptionalWhenFormatting", &t.d_np_opt.map(|b| b.to_string()));
        opt("carrierCodeFormattingRule", &t.d_carrier);
        opt("mainCountryForCode", &(t.main || (fancy && r.chance(1, 9))).then(|| t.main.to_string()));
        opt("mobileNumberPortableRegion", &(t.mnp || (fancy && r.chance(1, 9))).then(|| t.mnp.to_string()));
        o.push_str(&format!("<territory{}>", attrs(a, r, fancy)));
        if fancy && r.chance(1, 3) {
            o.push_str("<references>\n<sourceUrl>http://example.com/?a</sourceUrl><sourceUrl/></references>");
        }
        if !t.raw_fmts.is_empty() {
            o.push_str(&noise(r, fancy));
            o.push_str("<availableFormats>");
            for (f, npo, intl) in &t.raw_fmts {
                let mut a = vec![("pattern", f.pattern.src.clone())];
                if let Some(x) = &f.np_rule {
                    a.push(("nationalPrefixFormattingRule", x.clone()));
                }
                if let Some(x) = npo {
                    a.push(("nationalPrefixOptionalWhenFormatting", x.to_string()));
                }
                if let Some(x) = &f.carrier {
                    a.push(("carrierCodeFormattingRule", x.clone()));
                }
                o.push_str(&noise(r, fancy));
                o.push_str(&format!("<numberFormat{}>", attrs(a, r, fancy)));
                for l in &f.leading {
                    o.push_str(&noise(r, fancy));
                    o.push_str(&format!("<leadingDigits>{}</leadingDigits>", l.src));
                }
                o.push_str(&noise(r, fancy));
                o.push_str(&format!("<format>{}</format>", f.format));
                if let Some(i) = intl {
                    o.push_str(&noise(r, fancy));
                    o.push_str(&format!("<intlFormat>{i}</intlFormat>"));
                }
                o.push_str(&noise(r, fancy));
                o.push_str("</numberFormat>");
            }
            o.push_str("</availableFormats>");
        }
        let mut kinds = KINDS;
        if fancy {
            r.shuffle(&mut kinds);
        }
        for (k, name) in kinds {
            let Some(d) = t.desc(k) else { continue };
            // General lengths are derived when the types have any.
            let derived = k == Kind::General && t.types().any(|(_, d)| !d.lens.is_empty());
            o.push_str(&noise(r, fancy));
            o.push_str(&format!("<{name}>"));
            let pl = if derived || (d.lens.is_empty() && d.local.is_empty()) {
                String::new()
            } else {
                let mut a = vec![];
                if !d.lens.is_empty() {
                    a.push(("national", lens(&d.lens, r, fancy)));
                }
                if !d.local.is_empty() {
                    a.push(("localOnly", lens(&d.local, r, fancy)));
                }
                format!("{}<possibleLengths{}/>", noise(r, fancy), attrs(a, r, fancy))
            };
            o.push_str(&pl);
            if let Some(e) = &d.example {
                o.push_str(&format!("<exampleNumber>{e}</exampleNumber>"));
            }
            o.push_str(&format!(
                "{}<nationalNumberPattern>{}</nationalNumberPattern></{name}>",
                noise(r, fancy),
                d.pattern.src
            ));
        }
        o.push_str("</territory>");
    }
    o.push_str("</territories>");
    o.push_str(&noise(r, fancy));
    o.push_str("</phoneNumberMetadata>");
    if fancy && r.chance(1, 2) {
        o.push('\n');
    }
    o
}

/// A numbering plan made up from scratch.
pub fn synthetic(id: &str, code: u16, r: &mut Rng) -> Terr {
    let mut t = Terr { id: id.into(), code, ..Default::default() };
    let np = r.pick(&["0", "1", "8", "06", "01"]).to_string();
    let lo = r.range(4, 9) as u16;
    let span = r.below(4) as u16;
    let lens: Vec<u16> = (lo..=lo + span).collect();
    let pat = |head: &str, r: &mut Rng| -> String {
        let (a, b) = (lens[0] as usize - 1, *lens.last().unwrap() as usize - 1);
        match r.below(3) {
            0 if a == b => format!("{head}\\d{{{a}}}"),
            1 => format!("\n   (?:\n    {head}\n   )\\d{{{a},{b}}}\n  "),
            _ => format!("{head}\\d{{{a},{b}}}"),
        }
    };
    let heads = ["[2-5]", "[67]", "8", "9", "[0-4]", "[1-9]", "0", "(?:1|9)", "[39]"];
    let mut general = Desc { pattern: Rx::new(r"\d{3,15}"), ..Default::default() };
    if r.chance(1, 2) {
        general.pattern = Rx::new(&format!("[0-9]\\d{{{},{}}}", lens[0] - 1, lens.last().unwrap() - 1));
    }
    if r.chance(1, 12) {
        general.pattern = Rx::new("");
    }
    t.descs.insert(Kind::General as u8, general);
    for (k, _) in KINDS {
        if k == Kind::General || r.chance(1, 2) {
            continue;
        }
        let head = *r.pick(&heads);
        let mut ls = lens.clone();
        if r.chance(1, 3) {
            ls.remove(r.below(ls.len()));
        }
        if ls.is_empty() {
            ls = lens.clone();
        }
        match r.below(16) {
            // Any length the general description has.
            0 => ls.clear(),
            // A length no number has, but for its lowest eight bits.
            1 | 2 => {
                let k = r.below(ls.len());
                ls[k] += *r.pick(&[256, 512, 1 << 12]);
                ls.sort();
            }
            _ => {}
        }
        let local = if r.chance(1, 4) { vec![lens[0] - 2, lens[0] - 1] } else { vec![] };
        let p = pat(head, r);
        t.descs.insert(
            k as u8,
            Desc {
                pattern: Rx::new(&p),
                lens: ls,
                local,
                example: r.chance(2, 3).then(|| r.digits(lens[0] as usize)),
            },
        );
    }
    // Fixed line and mobile often have one pattern, which then is one text.
    if r.chance(1, 3) {
        if let (Some(f), Some(m)) = (t.desc(Kind::FixedLine).cloned(), t.descs.get_mut(&(Kind::Mobile as u8))) {
            m.pattern = f.pattern;
        }
    }
    let bare = |d: &Desc| d.pattern.src.split_whitespace().collect::<String>();
    if let (Some(f), Some(m)) = (t.desc(Kind::FixedLine).cloned(), t.desc(Kind::Mobile)) {
        if bare(&f) == bare(m) {
            t.descs.get_mut(&(Kind::Mobile as u8)).unwrap().pattern = f.pattern;
        }
    }
    // As in the real ones, the general pattern may say more than the length.
    let all: Vec<String> = t.types().map(|(_, d)| bare(d)).collect();
    let general = match r.below(4) {
        0 if !all.is_empty() => Some(all.join("|")),
        1 => Some(format!("{}\\d{{{},{}}}", r.pick(&["[2-8]", "[1-7]", "[3-9]", "(?:0|[4-9])"]), lens[0] - 1, lens.last().unwrap() - 1)),
        _ => None,
    };
    if let Some(g) = general {
        t.descs.get_mut(&(Kind::General as u8)).unwrap().pattern = Rx::new(&g);
    }
    if r.chance(3, 4) {
        t.idd = Some(Rx::new(*r.pick(&["00", "011", "0(?:0|1[1-5])", "00[1-9]", "810", "99(?:0|1)|00"])));
    }
    if r.chance(2, 3) {
        t.np = Some(np.clone());
        let k = lens[0].max(5) - 4;
        let more = r.digits(2);
        let (parse, transform) = match r.below(18) {
            0 => (np.clone(), None),
            1 => (format!("{np}(?:(1[245]|2[1-9]))?"), None),
            2 => (format!("{np}|([2-5]\\d{{{k}}})$"), Some(format!("{}$1", r.digits(3)))),
            3 => (format!("{np}(1\\d)?([2-9]\\d*)"), Some("9$2".to_string())),
            4 => (format!("{np}(?:(1\\d)([3-6]))?"), None),
            5 => (format!("{np}(\\d)(\\d)?"), None),
            6 => (format!("({np})?([2-8])"), None),
            7 => (format!("{np}(\\d\\d)(\\d+)"), Some("$2$1".to_string())),
            8 => (format!("(?:{np})?(\\d)(\\d{{{k}}})"), Some(format!("{more}$1$2"))),
            9 => (format!("{np}(?:(\\d\\d)?([2-5]\\d{{{k}}})(\\d*))?"), Some("$2$3".to_string())),
            10 => (format!("{np}(\\d+)"), Some("$1".to_string())),
            11 => (format!("{np}|{more}"), Some(format!("{more}$1"))),
            12 => (format!("(1|{more})?{np}"), r.chance(1, 2).then(|| "$1".to_string())),
            // A carrier code that may be empty.
            13 => (format!("{np}(15|2\\d|)"), None),
            14 => (format!("{np}(1\\d|)(\\d+)"), Some("$2".to_string())),
            // More groups, of which any may be missing.
            15 => (format!("{np}(1\\d)?(2)?([3-6]\\d{{2}})?"), Some(r.pick(&["$2$3", "9$3$2", "$3"]).to_string())),
            16 => (format!("{np}(1\\d)?(5)?(\\d[0-4])?"), None),
            _ => (String::new(), None),
        };
        if !parse.is_empty() {
            t.np_parse = Some(Rx::new(&parse));
            t.np_transform = transform;
        }
    }
    if r.chance(1, 3) {
        t.pref_ext = Some(r.pick(&[" ext ", " x", " extn. ", ";ext="]).to_string());
    }
    if r.chance(1, 3) {
        t.pref_idd = Some("8~10".into());
    }
    t.mnp = r.chance(1, 3);
    if r.chance(1, 5) {
        t.leading = Some(Rx::new(r.pick(&["[2-4]", "5|6", "90", "0"])));
    }
    let rules = ["$NP$FG", "($NP$FG)", "$NP $FG", "($FG)", "$NP 0$FG", "$NP($NP) $FG", "$NP $FG-$FG", "$FG", "$NP$NP/$FG"];
    let carriers = ["$NP$CC $FG", "$CC $FG", "$NP $CC ($FG)", "$NP$CC-$FG", "$CC $CC$FG", "$NP-$NP$CC/$FG", "$FG ($CC) $FG"];
    let rule = |r: &mut Rng| r.chance(1, 2).then(|| r.pick(&rules).to_string());
    t.d_np_rule = rule(r);
    t.d_np_opt = r.chance(1, 3).then(|| r.chance(1, 2));
    t.d_carrier = r.chance(1, 4).then(|| r.pick(&carriers).to_string());
    for _ in 0..r.below(5) {
        let n = r.range(lo as usize, (lo + span) as usize);
        let a = r.range(1, n - 2);
        let (pattern, format, groups) = if r.chance(1, 6) {
            // A group for every digit or two.
            let mut left = n;
            let (mut p, mut g) = (String::new(), 0);
            while left > 0 && g < 9 {
                let k = if g == 8 { left } else { r.range(1, 2.min(left)) };
                p += &format!("(\\d{{{k}}})");
                left -= k;
                g += 1;
            }
            let mut order: Vec<usize> = (1..=g).collect();
            if r.chance(1, 2) {
                let k = r.below(g);
                order.rotate_left(k);
            }
            if r.chance(1, 4) {
                let k = r.below(g);
                order.push(order[k]);
            }
            (p, order.iter().map(|i| format!("${i}")).collect::<Vec<_>>().join(&r.pick(&[" ", "-", "."]).to_string()), g)
        } else if r.chance(1, 2) {
            (format!("(\\d{{{a}}})(\\d{{{}}})", n - a), r.pick(&["$1 $2", "$1-$2", "($1) $2", "$2 $1"]).to_string(), 2)
        } else {
            let b = r.range(1, n - a - 1);
            (
                format!("(\\d{{{a}}})(\\d{{{b}}})(\\d{{{},{}}})", n - a - b, n - a - b + r.below(3)),
                r.pick(&["$1 $2 $3", "$1-$2 $3", "($1) $2-$3", "$2 15-$3", "$1.$2.$3"]).to_string(),
                3,
            )
        };
        // Any other punctuation between the groups.
        let odd = ["/", "~", "  ", "\u{2010}", "\u{2015}", "\u{2212}", "\u{FF0D}", "\u{A0}", "\u{AD}", "\u{200B}", "\u{2060}", "\u{3000}", ") (", "][", "\u{FF09}\u{FF08}", "\u{2053}", "\u{223C}", "\u{FF5E}", "\u{FF0E}", "\u{30FC}", "./-"];
        let format = if r.chance(1, 5) {
            let by = r.pick(&odd).to_string();
            format.replace(" $", &format!("{by}$")).replace("-$", &format!("{by}$"))
        } else {
            format
        };
        let intl = match r.below(4) {
            0 => Some("NA".to_string()),
            1 => Some(if groups == 3 { "$1-$2-$3" } else { "$1-$2" }.to_string()),
            _ => None,
        };
        let mut leading = vec![];
        for _ in 0..r.below(3) {
            leading.push(Rx::new(r.pick(&["[2-9]", "[1-5]", "8|9", "2[0-5]", "\n  [67]|\n  9\n ", "0"])));
        }
        t.raw_fmts.push((
            Fmt {
                pattern: Rx::new(&pattern),
                format,
                leading,
                np_rule: rule(r),
                np_opt: false,
                carrier: r.chance(1, 4).then(|| r.pick(&carriers).to_string()),
            },
            r.chance(1, 4).then(|| r.chance(1, 2)),
            intl,
        ));
    }
    t
}

/// A database of one calling code that very many territories share, in any
/// order, with or without a main region.
pub fn crowd(base: &Model, r: &mut Rng) -> Model {
    let n = r.range(12, 45);
    let code = *r.pick(&[1u16, 44, 7, 290, 999, 20]);
    let all: Vec<&str> = base.terrs.iter().map(|t| t.id.as_str()).filter(|i| *i != "001").collect();
    let mut ids = all.clone();
    r.shuffle(&mut ids);
    let main = r.below(n + n / 2);
    let terrs = (0..n.min(ids.len()))
        .map(|k| {
            let mut t = if r.chance(1, 3) {
                synthetic(ids[k], code, r)
            } else {
                base.terrs[r.below(base.terrs.len())].clone()
            };
            t.id = ids[k].to_string();
            t.code = code;
            t.main = k == main;
            t
        })
        .collect();
    Model::new(terrs)
}

/// Region identifiers that a country::Id exists for.
pub const SOME_IDS: [&str; 24] = [
    "US", "GB", "FR", "DE", "IT", "CA", "BS", "RU", "KZ", "AU", "CC", "CX", "BR", "AR", "CN", "FI",
    "AX", "RE", "YT", "NO", "SJ", "JP", "IN", "VA",
];

/// A database unlike the shipped one: territories taken over, renumbered or
/// made up, several of them sharing calling codes, in any order.
pub fn custom(base: &Model, r: &mut Rng, max: usize) -> Model {
    let n = r.range(1, max);
    let mut terrs: Vec<Terr> = vec![];
    let mut ids: Vec<&str> = SOME_IDS.to_vec();
    r.shuffle(&mut ids);
    let codes: Vec<u16> = match r.below(3) {
        0 => vec![1, 7, 44, 299, 61],
        1 => vec![1, 2, 3, 4, 5, 6, 7, 8, 9],
        // Prefix-free, like the real ones.
        _ => vec![1, 20, 33, 350, 351, 999, 881, 49],
    };
    let share = r.chance(1, 2);
    for i in 0..n {
        let code = if share { *r.pick(&codes[..2.min(codes.len())]) } else { *r.pick(&codes) };
        let mut t = if r.chance(1, 2) {
            synthetic(ids[i % ids.len()], code, r)
        } else {
            let mut t = base.terrs[r.below(base.terrs.len())].clone();
            if r.chance(1, 2) {
                t.code = code;
            }
            t.id = ids[i % ids.len()].to_string();
            t
        };
        // A calling code that is a prefix of another cannot be told apart.
        let s = t.code.to_string();
        if terrs.iter().any(|o| {
            let o = o.code.to_string();
            o != s && (o.starts_with(&s) || s.starts_with(&o))
        }) {
            continue;
        }
        // As in the shipped metadata, a non-geographical entity has a calling
        // code of its own.
        if terrs.iter().any(|o| o.id == "001" && o.code == t.code) {
            continue;
        }
        t.main = r.chance(1, 4) && !terrs.iter().any(|o| o.code == t.code && o.main);
        if r.chance(1, 12) && !terrs.iter().any(|o| o.code == t.code) {
            t.id = "001".into();
            t.main = false;
        }
        terrs.push(t);
    }
    Model::new(terrs)
}
