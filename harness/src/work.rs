//! Workloads shared by the checks.

use crate::gen::*;
use crate::model::*;
use crate::mon::{Ctx, W};
use crate::rng::Rng;
use crate::util::*;
use phonenumber::country::Id;
use phonenumber::metadata::Database;
use phonenumber::PhoneNumber;
use std::sync::OnceLock;

pub struct Env {
    pub m: &'static Model,
    pub s: Samplers,
    /// Pattern samplers for the international prefixes and the prefixes for
    /// parsing, by territory.
    pub idd: Vec<Option<regex_syntax::hir::Hir>>,
    pub np: Vec<Option<regex_syntax::hir::Hir>>,
}

impl Env {
    pub fn new(m: &'static Model) -> Env {
        Env {
            m,
            s: Samplers::new(m),
            idd: m.terrs.iter().map(|t| t.idd.as_ref().map(hir)).collect(),
            np: m.terrs.iter().map(|t| t.np_parse.as_ref().map(hir)).collect(),
        }
    }
    /// The samplers of one territory.
    pub fn of(&self, terr: usize) -> impl Iterator<Item = usize> + '_ {
        (0..self.s.0.len()).filter(move |&i| self.s.0[i].terr == terr)
    }
}

pub fn env() -> &'static Env {
    static E: OnceLock<Env> = OnceLock::new();
    E.get_or_init(|| Env::new(bundled()))
}

/// One numbering plan the checks work on: the model and the loaded database.
pub struct Plan {
    pub env: Env,
    pub db: Database,
}

impl Plan {
    pub fn m(&self) -> &'static Model {
        self.env.m
    }
}

/// Every territory is a shard; every type and possible length of it gets
/// `reps` sampled numbers (and its example).
pub fn valid_numbers(ctx: &Ctx, reps: usize, f: impl Fn(&mut W, usize, Kind, &str) + Sync) {
    let e = env();
    ctx.par(e.m.terrs.len(), |w, ti| {
        let t = &e.m.terrs[ti];
        for i in e.of(ti) {
            let kind = e.s.0[i].kind;
            let d = t.desc(kind).unwrap();
            if let Some(x) = &d.example {
                f(w, ti, kind, x);
            }
            let lens: Vec<Option<u16>> =
                if d.lens.is_empty() { vec![None] } else { d.lens.iter().map(|l| Some(*l)).collect() };
            for len in lens {
                for _ in 0..reps {
                    if w.over() {
                        return;
                    }
                    if let Some(n) = e.s.fit(e.m, i, len, &mut w.r) {
                        f(w, ti, kind, &n);
                    }
                }
            }
        }
    });
}

/// A number of some type of the territory, or one close to it.
pub fn national(e: &Env, ti: usize, r: &mut Rng) -> String {
    let own: Vec<usize> = e.of(ti).collect();
    let base = own
        .get(r.below(own.len().max(1)))
        .and_then(|&i| e.s.fit(e.m, i, None, r))
        .unwrap_or_else(|| random_nsn(r));
    match r.below(5) {
        0 => near(&base, r),
        1 => {
            let n = near(&base, r);
            if n.is_empty() {
                n
            } else {
                near(&n, r)
            }
        }
        2 if r.chance(1, 4) => random_nsn(r),
        _ => base,
    }
}

/// Put separators between the digits.
pub fn punctuate(s: &str, seps: &[char], r: &mut Rng) -> String {
    let mut out = String::new();
    let density = r.range(2, 6);
    for (i, c) in s.chars().enumerate() {
        if i > 0 && c != '+' && r.chance(1, density) {
            for _ in 0..r.range(1, 2) {
                out.push(*r.pick(seps));
            }
        }
        out.push(c);
    }
    out
}

/// Separators that are nothing else in any position.
pub fn pure_separators() -> Vec<char> {
    PUNCT.chars().filter(|c| !"x~\u{FF5E}".contains(*c)).collect()
}

/// Every notation of an extension; the second is the longest it can hold.
pub const NOTATIONS: [(&str, &str, usize); 39] = [
    (";ext=", "", 7),
    (" ext. ", "", 7),
    (" ext ", "", 7),
    ("ext", "", 7),
    (" extn ", "", 7),
    (" extn. ", "", 7),
    (" xtn ", "", 7),
    ("xt", "", 7),
    (" extensi\u{F3}n ", "", 7),
    (" extensio\u{301}n ", "", 7),
    (" extension ", "", 7),
    (" extension: ", "", 7),
    (" Ext. ", "", 7),
    (" EXT ", "#", 7),
    (" \u{FF45}\u{FF58}\u{FF54}\u{FF4E} ", "", 7),
    (" \u{FF45}\u{FF58}\u{FF54} ", "", 7),
    (" \u{FF58}\u{FF54}\u{FF4E}", "", 7),
    (" x", "", 7),
    ("x", "", 7),
    (" X ", "", 7),
    (" \u{FF58}", "", 7),
    ("\u{FF58}", "", 7),
    (" #", "", 7),
    ("#", "", 7),
    (" \u{FF03}", "", 7),
    ("\u{FF03}", "", 7),
    (" ~", "", 7),
    ("~", "", 7),
    ("\u{FF5E}", "", 7),
    (",", "", 7),
    (", ", "", 7),
    (";", "", 7),
    (" ; ", "", 7),
    (" int ", "", 7),
    ("int", "", 7),
    (" anexo ", "", 7),
    ("\u{FF49}\u{FF4E}\u{FF54}", "", 7),
    (" - ", "#", 5),
    (" ", "#", 5),
];

/// A notation of an extension as its grammar has it: separators, a mark, a
/// full stop or colon, separators, digits and perhaps a number sign.
pub fn notation(r: &mut Rng) -> (String, String, usize) {
    const MARKS: [&str; 23] = [
        "ext", "extn", "xt", "xtn", "extensio", "extension", "extensi\u{F3}", "extensi\u{F3}n", "extensio\u{301}", "extensio\u{301}n",
        "\u{FF45}\u{FF58}\u{FF54}", "\u{FF45}\u{FF58}\u{FF54}\u{FF4E}", "\u{FF58}\u{FF54}", "\u{FF58}\u{FF54}\u{FF4E}", "x", "\u{FF58}",
        "#", "\u{FF03}", "~", "\u{FF5E}", "int", "anexo", "\u{FF49}\u{FF4E}\u{FF54}",
    ];
    let mut a = String::new();
    for _ in 0..r.below(4) {
        a.push(*r.pick(&[' ', ' ', '\u{A0}', '\t', ',']));
    }
    let mark = *r.pick(&MARKS);
    match r.below(3) {
        0 => a += &mark.to_uppercase(),
        1 if !mark.contains('\u{301}') => a.extend(mark.chars().map(|c| if r.chance(1, 2) { c.to_uppercase().next().unwrap() } else { c })),
        _ => a += mark,
    }
    if r.chance(1, 3) {
        a.push(*r.pick(&[':', '.', '\u{FF0E}']));
    }
    for _ in 0..r.below(4) {
        a.push(*r.pick(&[' ', ' ', '\u{A0}', '\t', ',', '-']));
    }
    (a, if r.chance(1, 4) { "#" } else { "" }.to_string(), 7)
}

/// A region, by any name a caller could use, or none.
pub fn hint(r: &mut Rng) -> Option<(&'static str, Id)> {
    let v = ids();
    let (s, i) = r.pick(v);
    Some((s.as_str(), *i))
}

/// One of the ways to write a national number of the territory.
pub fn dialled(e: &Env, ti: usize, nsn: &str, from: Option<usize>, r: &mut Rng) -> String {
    let t = &e.m.terrs[ti];
    match r.below(11) {
        0 | 1 => nsn.to_string(),
        2 => format!("{}{nsn}", t.np.as_deref().unwrap_or("0")),
        3 | 4 => format!("+{}{nsn}", t.code),
        5 => format!("{}{nsn}", t.code),
        6 => {
            let idd = from
                .and_then(|f| e.idd[f].as_ref())
                .map_or("00".into(), |h| from_pattern(h, r));
            format!("{idd}{}{nsn}", t.code)
        }
        7 => {
            let np = e.np[ti].as_ref().map_or(String::new(), |h| from_pattern(h, r));
            format!("{np}{nsn}")
        }
        8 => {
            let np = e.np[ti].as_ref().map_or("0".into(), |h| from_pattern(h, r));
            format!("+{}{np}{nsn}", t.code)
        }
        9 => {
            let np = e.np[ti].as_ref().map_or("0".into(), |h| from_pattern(h, r));
            format!("{}{np}{nsn}", t.code)
        }
        _ => format!("+{}{}", r.pick(&["00", "0", "", "011", "++"]), format!("{}{nsn}", t.code)),
    }
}

/// Texts people and programs write, right and wrong.
pub fn text(e: &Env, ti: usize, from: Option<usize>, r: &mut Rng) -> String {
    let nsn = national(e, ti, r);
    let mut s = dialled(e, ti, &nsn, from, r);
    if r.chance(1, 12) {
        s = garbage(r);
    }
    match r.below(6) {
        0 => s = punctuate(&s, &PUNCT.chars().collect::<Vec<_>>(), r),
        1 | 2 => s = punctuate(&s, &pure_separators(), r),
        _ => (),
    }
    if r.chance(1, 6) {
        let z = *r.pick(&ZEROS);
        let all = r.chance(1, 2);
        s = s.chars().map(|c| if all || r.chance(1, 2) { in_script(c, z) } else { c }).collect();
    }
    if r.chance(1, 6) {
        s = s
            .chars()
            .map(|c| if c.is_ascii_digit() && r.chance(1, 4) { letter(c, r) } else { c })
            .collect();
    }
    if r.chance(1, 5) {
        let (a, z, max) = *r.pick(&NOTATIONS);
        let n = r.range(0, max + 1);
        s = format!("{s}{a}{}{z}", r.digits(n));
    }
    if r.chance(1, 6) {
        s = uri(&s, r);
    }
    if r.chance(1, 8) {
        s = format!("{}{s}", r.pick(&["Tel: ", "call ", "(", "a.b@c ", ":", "tel:", "\u{FF0B}", "fax", "ab", " \t"]));
    }
    if r.chance(1, 8) {
        s = format!("{s}{}", r.pick(&[".", " ", ")", "...", ", thanks", "/x12", "\\ x3", "#", ";", ";ext=", "\n", " or 12"]));
    }
    s
}

pub fn letter(d: char, r: &mut Rng) -> char {
    let v: Vec<char> = ('A'..='Z').chain('a'..='z').filter(|&c| keypad(c) == Some(d)).collect();
    if v.is_empty() {
        d
    } else {
        *r.pick(&v)
    }
}

pub fn uri(s: &str, r: &mut Rng) -> String {
    let mut out = format!("{}{s}", r.pick(&["tel:", "TEL:", "Tel:", "", "sip:"]));
    for _ in 0..r.below(4) {
        let p = match r.below(12) {
            0 => ";phone-context=+1".to_string(),
            1 => format!(";phone-context=+{}", { let n = r.range(0, 4); r.digits(n) }),
            2 => ";phone-context=example.com".into(),
            3 => ";phone-context=+64-3".into(),
            4 => format!(";ext={}", { let n = r.range(0, 8); r.digits(n) }),
            5 => ";isub=12345".into(),
            6 => ";a=%A1".into(),
            7 => ";flag".into(),
            8 => ";=".into(),
            9 => ";ext".into(),
            10 => ";phone-context=".into(),
            _ => ";x-y=[a]/b:c&d+e$f".into(),
        };
        out.push_str(&p);
    }
    out
}

/// Text that is not (or hardly) a phone number.
pub fn garbage(r: &mut Rng) -> String {
    const ALPHA: &[char] = &[
        '0', '1', '2', '3', '9', '+', '\u{FF0B}', '-', ' ', '(', ')', '.', '/', '\\', '*', '#', 'x', 'X', 'e', 't',
        'n', 'i', 'o', ';', '=', ',', ':', '~', 'a', 'Z', '\u{0}', '\n', '\t', '\u{660}', '\u{FF11}', '\u{966}',
        '\u{301}', '\u{F3}', '\u{FF58}', '\u{FF03}', '\u{1D7D9}', '\u{B2}', '\u{2160}', '\u{4E09}', '\u{10FFFF}',
        '\u{1F600}', '\u{200B}', '\u{AD}', '%', '@', '[', ']', '\u{E50}', '\u{1A80}',
    ];
    match r.below(9) {
        8 => {
            let n = r.range(0, 40);
            Grow::new(r).text(n)
        }
        0 => r.pick(&[
            "", "+", "++", "tel:", "tel:+", "john.doe@example.com", "127.0.0.1", "2001:db8::1", "2026-11-18",
            "12:34:56", "the quick brown fox", "1-800-", "0", "00", "+0", "+00", "*", "***", "12", "1", "x", "ext. 5",
            ";ext=1", "+1", "+12", "+999", "1.2.3.4", "3rd of May", "$100.00", "50%", "ISBN 0-306-40615-2", "#31#",
            "*100#", "\u{660}\u{661}", "12abc", "123abc", "a1b2c3", "1234567890123456789012345678901234567890",
        ])
        .to_string(),
        1 => {
            let n = r.range(0, 40);
            r.digits(n)
        }
        2 => {
            let n = r.range(0, 40);
            format!("+{}", r.digits(n))
        }
        3 => {
            let n = r.range(0, 60);
            (0..n).filter_map(|_| char::from_u32(r.u64() as u32 % 0x11_0000)).collect()
        }
        _ => {
            let n = r.range(0, 30);
            (0..n).map(|_| *r.pick(ALPHA)).collect()
        }
    }
}

/// Parse and compare with the model; the library's answer if they agree.
pub fn same(
    w: &mut W,
    m: &Model,
    db: Option<&Database>,
    h: Option<(&str, Id)>,
    s: &str,
) -> Option<Result<PhoneNumber, phonenumber::ParseError>> {
    let what = format!("parse({}, {s:?})", h.map_or("None", |h| h.0));
    let got = w.op(&what, || match db {
        None => phonenumber::parse(h.map(|h| h.1), s),
        Some(db) => phonenumber::parse_with(db, h.map(|h| h.1), s),
    })?;
    let want = m.parse(h.map(|h| h.0), s);
    let same = match (&got, &want) {
        (Ok(p), Some(n)) => num(p) == *n,
        (Err(_), None) => true,
        _ => false,
    };
    if !same {
        w.fail(
            "the parse is not what the metadata gives".into(),
            serde_json::json!({ "call": what, "got": show(&got), "expected": format!("{want:?}") }),
        );
        return None;
    }
    Some(got)
}

/// A numbering plan that is not the shipped one, loaded into a database.
/// `None` if it does not load (which is for C07 to judge).
pub fn plan(w: &mut W, max: usize) -> Option<Plan> {
    let m = if max > 6 && w.r.chance(1, 16) { crowd(bundled(), &mut w.r) } else { custom(bundled(), &mut w.r, max) };
    let m: &'static Model = Box::leak(Box::new(m));
    let xml = to_xml(m, &mut w.r, false);
    // Now and then from records, which can describe more than a document.
    let more = w.r.chance(1, 4).then(|| w.r.u64());
    let load = || match more {
        None => Database::parse(&xml),
        Some(seed) => {
            let mut r = Rng::new(seed);
            let mut v = phonenumber::metadata::loader::load(xml.as_bytes())?;
            for t in &mut v {
                let types: Vec<_> = [&t.fixed_line, &t.mobile, &t.toll_free, &t.premium_rate, &t.shared_cost, &t.voip, &t.uan, &t.pager]
                    .into_iter()
                    .flatten()
                    .cloned()
                    .collect();
                if types.is_empty() {
                    continue;
                }
                for d in [&mut t.short_code, &mut t.standard_rate, &mut t.carrier] {
                    if r.chance(1, 2) {
                        *d = Some(r.pick(&types).clone());
                    }
                }
            }
            Database::from(v)
        }
    };
    match crate::mon::guarded(load) {
        Ok(Ok(db)) => {
            w.count(if more.is_some() { "custom databases made of records" } else { "custom databases" });
            Some(Plan { env: Env::new(m), db })
        }
        _ => {
            w.count("custom databases that did not load");
            None
        }
    }
}

/// A hint for a plan: one of its regions, another region, or none.
pub fn plan_hint(m: &'static Model, r: &mut Rng) -> Option<(&'static str, Id)> {
    match r.below(8) {
        0 => None,
        1 => hint(r),
        _ => {
            let t = &m.terrs[r.below(m.terrs.len())];
            id(&t.id).map(|i| (t.id.as_str(), i))
        }
    }
}

/// The territory as a hint; `None` for a non-geographical entity.
pub fn own(t: &'static Terr) -> Option<(&'static str, Id)> {
    if t.id == "001" {
        return None;
    }
    id(&t.id).map(|i| (t.id.as_str(), i))
}

/// Families of growing texts, hostile to one part of the parser or another.
pub const FAMILIES: [(&str, &str, &str, &str); 52] = [
    ("digits", "", "1", ""),
    ("zeros", "", "0", ""),
    ("plus digits", "+", "1", ""),
    ("pluses", "", "+", ""),
    ("pluses then a number", "", "+", "16502530000"),
    ("wide pluses", "", "\u{FF0B}", "16502530000"),
    ("spaces before", "", " ", "6502530000"),
    ("spaces after", "6502530000", " ", ""),
    ("spaces before an x", "6502530000", " ", "x12"),
    ("spaces inside", "650", " ", "2530000"),
    ("tabs and commas", "6502530000", "\t,", "x12"),
    ("commas", "6502530000", ",", "12"),
    ("dashes", "650", "-", "2530000"),
    ("dashes then hash", "6502530000", "- ", "12#"),
    ("dash spaces open", "6502530000", "- ", "a"),
    ("dots", "650", ".", "2530000"),
    ("soft hyphens", "650", "\u{AD}", "2530000"),
    ("zero width", "650", "\u{200B}", "2530000"),
    ("x", "6502530000", "x", "1"),
    ("x1", "650253", "x1", ""),
    (" x1", "650253", " x1", ""),
    ("ext", "650253", " ext ", "1"),
    ("ext 1", "650253", " ext 1", ""),
    ("extensio", "650253", "extensio", "1"),
    ("combining", "650253 extensio", "\u{301}", "n 12"),
    ("hashes", "650253", "#", ""),
    ("hash digits", "650253", "#1", ""),
    ("tildes", "650253", "~1", ""),
    ("slashes", "650253", "/", "x1"),
    ("slash spaces", "650253/", " ", "y"),
    ("slash space pairs", "650253", "/ ", ""),
    ("backslashes", "650253", "\\ ", "x1"),
    ("letters", "650253", "a", ""),
    ("letter digits", "650253", "b2", ""),
    ("words", "", "word ", "650 253 0000"),
    ("scheme", "", "tel:", "6502530000"),
    ("uri params", "tel:+16502530000", ";a=b", ""),
    ("uri flags", "tel:+16502530000", ";f", ""),
    ("uri ext", "tel:+16502530000", ";ext=1", ""),
    ("uri context", "tel:6502530000", ";phone-context=+1", ""),
    ("uri value", "tel:+16502530000;a=", "%A1", ""),
    ("uri context digits", "tel:6502530000;phone-context=+", "1", ""),
    ("uri ext digits", "tel:+16502530000;ext=", "1", ""),
    ("uri semicolons", "tel:+16502530000", ";", ""),
    ("hex", "tel:650", "abc", ""),
    ("parens", "", "(1)", ""),
    ("stars", "650", "*", "2530000"),
    ("full-width digits", "", "\u{FF11}", ""),
    ("arabic digits", "+", "\u{661}", ""),
    ("emoji", "650253", "\u{1F600}", ""),
    ("nul", "650253", "\u{0}", "0000"),
    ("end chars", "650253", "!a", "!"),
];

/// A family made up at random: pieces that repeat, some with a running
/// number so that no two are the same, between a beginning and an end.
#[derive(Debug)]
pub struct Grow {
    start: &'static str,
    pieces: Vec<&'static str>,
    numbered: bool,
    between: &'static str,
    end: &'static str,
}

impl Grow {
    pub fn new(r: &mut Rng) -> Grow {
        const START: [&str; 22] = [
            "", "", "+", "+1", "0", "00", "011", "650253", "6502530000", "+16502530000", "tel:", "TEL:+1", "tel:650253", "+16502530000;",
            "tel:+16502530000;ext=", "tel:6502530000;phone-context=", "tel:6502530000;phone-context=+", "6502530000 ext. ", "1800FLOWERS", "650abc",
            "word: ", "+1650253/",
        ];
        const PIECE: [&str; 62] = [
            "1", "0", "7", "x", "X", "xt", "ext", " ext. ", "e", ";", ";ext=", ";ext", ";a", ";a=b", ";phone-context=", ";phone-context=+1", ";isub=1", "=",
            "%41", "*", "+", "\u{FF0B}", " ", "  ", "\u{A0}", "\t", ",", ".", "-", "--", "\u{2013}", "/", "\\", "/x", "/ x", "(", ")", "[", "]", "~",
            "\u{FF5E}", "#", "1#", "- 1#", "a", "z", "abc", "Q1", "\u{FF11}", "\u{661}", "\u{301}", "\u{1F600}", "\0", "\n", "int", "anexo", "extensio",
            "extensio\u{301}", "tel:", "!", "&", "\u{AD}",
        ];
        const END: [&str; 16] = [
            "", "", "", "1", "12", "6502530000", "x12", "x", "#", "12#", " ext. 3", ";ext=7", "!", "a", "\u{FF17}", ";phone-context=+1",
        ];
        Grow {
            start: *r.pick(&START),
            pieces: (0..r.range(1, 3)).map(|_| *r.pick(&PIECE)).collect(),
            numbered: r.chance(1, 4),
            between: if r.chance(1, 4) { *r.pick(&PIECE) } else { "" },
            end: *r.pick(&END),
        }
    }
    pub fn text(&self, bytes: usize) -> String {
        let mut s = self.start.to_string();
        let mut k = 0usize;
        while s.len() < bytes {
            for p in &self.pieces {
                s.push_str(p);
                if self.numbered {
                    // Letters and digits, never a run of digits alone.
                    s.push(char::from(b'a' + (k % 26) as u8));
                    s.push_str(&(k / 26).to_string());
                    k += 1;
                }
            }
            s.push_str(self.between);
        }
        s.push_str(self.end);
        s
    }
}

pub fn family(i: usize, bytes: usize) -> String {
    let (_, a, b, z) = FAMILIES[i];
    let n = bytes / b.len();
    format!("{a}{}{z}", b.repeat(n))
}
