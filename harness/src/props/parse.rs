//! Parsing: totality, well-formedness, the forms a number is written in,
//! rejection and stripping.

use crate::gen::*;
use crate::model::*;
use crate::mon::{Ctx, W};
use crate::util::*;
use crate::work::*;
use phonenumber::country::Id;
use phonenumber::metadata::{loader, Database};
use phonenumber::PhoneNumber;
use serde_json::json;
use std::sync::OnceLock;

type Hint = Option<(&'static str, Id)>;

fn name(h: Hint) -> &'static str {
    h.map_or("none", |h| h.0)
}

/// A territory of the shipped metadata and a hint for its numbers.
fn pick(w: &mut W, ti: usize) -> (Option<usize>, Hint) {
    let e = env();
    let from = if w.r.chance(2, 3) { ti } else { w.r.below(e.m.terrs.len()) };
    let h = own(&e.m.terrs[from]);
    if w.r.chance(1, 6) {
        return (None, None);
    }
    (Some(from), h)
}

pub fn records() -> &'static [loader::Metadata] {
    static R: OnceLock<Vec<loader::Metadata>> = OnceLock::new();
    R.get_or_init(|| {
        let xml = std::fs::read(xml_path()).unwrap();
        loader::load(&xml[..]).unwrap_or_default()
    })
}

/// A database that loads, from records no numbering authority would publish.
pub fn weird(w: &mut W) -> Option<Database> {
    let base = records();
    if base.is_empty() {
        return None;
    }
    const RX: [&str; 26] = [
        "", "0", r"\d", r"\d*", r"(\d)(\d)", r"()", r"(\d*)", "^", "$", r"(?:0|1)?", r"0(\d)?", r"(0)(1)?(\d*)",
        r"[^0]", ".", ".*", r"(?P<a>\d)(?P<b>\d*)", r"\D", "x?", r"(a)|(\d)", r"0|([1-9]\d)$", r"\b", r"(\d)?(\d)?",
        "1|11|111", r"(0)?", r"(?i)a|1", "\u{661}?",
    ];
    const TEXT: [&str; 22] = [
        "", "$1", "$2", "$0", "$9", "$10", "$1$2$3", "${1}", "$a", "$1a", "$", "$$", "$NP$FG", "$FG", "$CC", "$NP",
        "$CC $FG", "$1 $1", "\u{E9}$1", "0$1$2", "$FG $FG", "\\1",
    ];
    let n = w.r.range(1, 4);
    let mut v = vec![];
    for _ in 0..n {
        let mut m = w.r.pick(base).clone();
        let r = &mut w.r;
        m.id = Some(r.pick(&SOME_IDS).to_string());
        if r.chance(1, 10) {
            m.id = Some(r.pick(&["", "001", "XX", "zz9"]).to_string());
        }
        let opt = |r: &mut crate::rng::Rng, v: &mut Option<String>, from: &[&str]| {
            if r.chance(1, 4) {
                *v = if r.chance(1, 4) { None } else { Some(r.pick(from).to_string()) };
            }
        };
        opt(r, &mut m.international_prefix, &RX);
        opt(r, &mut m.national_prefix, &["", "0", "00", "a", "\u{661}", "$1", "8"]);
        opt(r, &mut m.national_prefix_for_parsing, &RX);
        opt(r, &mut m.national_prefix_transform_rule, &TEXT);
        opt(r, &mut m.leading_digits, &RX);
        opt(r, &mut m.preferred_extension_prefix, &TEXT);
        if r.chance(1, 3) {
            m.country_code = Some(*r.pick(&[0, 1, 1, 7, 7, 44, 99, 999, 1000, 9999, 65535, 10, 100]));
        }
        m.main_country_for_code = r.chance(1, 3);
        for d in [&mut m.general, &mut m.fixed_line, &mut m.mobile, &mut m.toll_free, &mut m.uan] {
            if let Some(d) = d {
                opt(r, &mut d.national_number, &RX);
                if d.national_number.is_none() {
                    d.national_number = Some(String::new());
                }
                if r.chance(1, 6) {
                    d.possible_length = r.pick(&[vec![], vec![0], vec![1], vec![9, 3], vec![65535], vec![2, 17, 18]]).clone();
                }
                if r.chance(1, 6) {
                    d.possible_local_length = r.pick(&[vec![], vec![0], vec![2], vec![7, 8], vec![65535]]).clone();
                }
            }
        }
        for f in m.formats.iter_mut().chain(&mut m.international_formats) {
            opt(r, &mut f.pattern, &RX);
            opt(r, &mut f.format, &TEXT);
            opt(r, &mut f.national_prefix_formatting_rule, &TEXT);
            opt(r, &mut f.domestic_carrier, &TEXT);
            f.pattern.get_or_insert_with(String::new);
            f.format.get_or_insert_with(String::new);
            if r.chance(1, 4) {
                f.leading_digits = vec![r.pick(&RX).to_string()];
            }
        }
        v.push(m);
    }
    match crate::mon::guarded(|| Database::from(v)) {
        Ok(Ok(db)) => {
            w.count("hostile databases");
            Some(db)
        }
        _ => None,
    }
}

/// A hint for such a database: mostly one of its own regions.
pub fn weird_hint(db: &Database, r: &mut crate::rng::Rng) -> Hint {
    if r.chance(1, 6) {
        return None;
    }
    let own: Vec<&'static str> = SOME_IDS.into_iter().filter(|i| db.by_id(*i).is_some()).collect();
    let n = if own.is_empty() || r.chance(1, 8) { *r.pick(&SOME_IDS) } else { *r.pick(&own) };
    id(n).map(|i| (n, i))
}

/// A text for such a database: the usual forms, or digits of any number,
/// many of them short, perhaps after one of its calling codes.
pub fn weird_text(db: &Database, r: &mut crate::rng::Rng) -> String {
    let e = env();
    if r.chance(1, 3) {
        let ti = r.below(e.m.terrs.len());
        return text(e, ti, Some(ti), r);
    }
    let codes: Vec<u16> = db.iter().map(|m| m.country_code()).collect();
    let n = if r.chance(1, 2) { r.range(0, 8) } else { r.range(0, 20) };
    let d = if r.chance(1, 3) { (0..n).map(|_| *r.pick(&['0', '1', '9'])).collect() } else { r.digits(n) };
    let code = if codes.is_empty() { 1 } else { *r.pick(&codes) };
    let tail = *r.pick(&["", "", "", "", " ext 12", "#", ";ext=", "x0"]);
    match r.below(6) {
        0 => format!("+{code}{d}{tail}"),
        1 => format!("{code}{d}{tail}"),
        2 => format!("00{code}{d}{tail}"),
        3 => format!("tel:{d};phone-context=+{code}"),
        _ => format!("{d}{tail}"),
    }
}

pub fn c01(ctx: &Ctx) {
    ctx.rule(
        "texts: every dialling form, decoration, notation and URI of sampled numbers, mutated, plus Unicode garbage \
         and runs of up to 128 KB; hints: every region, absent regions, none; databases: bundled, made up, hostile. \
         Distinct by (database, hint, text); empty texts are trivial.",
    );
    let e = env();
    let one = |w: &mut W, db: Option<&Database>, which: &str, h: Option<Id>, hn: &str, s: &str| {
        let cut: String = s.chars().take(300).collect();
        w.eval(&format!("{which}/{hn}/{s}"));
        w.sample(|| json!({ "database": which, "hint": hn, "text": cut }));
        let ok = w.op(&format!("{which}: parse({hn}, {s:?})"), || match db {
            None => phonenumber::parse(h, s).is_ok(),
            Some(db) => phonenumber::parse_with(db, h, s).is_ok(),
        });
        match ok {
            Some(true) => w.count("accepted"),
            Some(false) => w.count("rejected"),
            None => (),
        }
    };
    ctx.par(e.m.terrs.len(), |w, ti| {
        for _ in 0..ctx.quick_or(700, 14_000) {
            if w.over() {
                return;
            }
            let (from, h) = pick(w, ti);
            let s = if w.r.chance(1, 4) { garbage(&mut w.r) } else { text(e, ti, from, &mut w.r) };
            one(w, None, "bundled", h.map(|h| h.1), name(h), &s);
            w.op(&format!("is_viable({s:?})"), || phonenumber::is_viable(&s));
            if w.r.chance(1, 8) {
                w.op(&format!("from_str({s:?})"), || s.parse::<PhoneNumber>().is_ok());
            }
        }
    });
    // Cut texts at every point and splice them: no byte offset is safe to assume.
    ctx.par(64, |w, _| {
        for _ in 0..ctx.quick_or(30, 400) {
            let ti = w.r.below(e.m.terrs.len());
            let (from, h) = pick(w, ti);
            let a = text(e, ti, from, &mut w.r);
            let b = garbage(&mut w.r);
            let cuts: Vec<usize> = a.char_indices().map(|c| c.0).collect();
            for &c in &cuts {
                let s = match w.r.below(3) {
                    0 => a[..c].to_string(),
                    1 => a[c..].to_string(),
                    _ => format!("{}{b}{}", &a[..c], &a[c..]),
                };
                one(w, None, "bundled", h.map(|h| h.1), name(h), &s);
            }
        }
    });
    ctx.par(FAMILIES.len(), |w, i| {
        for n in [0, 1, 2, 3, 7, 16, 17, 18, 40, 255, 256, 300, 4096, 65_536, 131_072] {
            for h in [None, Some("US"), Some("BR"), Some("AR"), Some("IT"), Some("FI")] {
                let s = family(i, n);
                one(w, None, "bundled", h.and_then(id), h.unwrap_or("none"), &s);
                w.op(&format!("is_viable({s:?})"), || phonenumber::is_viable(&s));
            }
        }
    });
    ctx.par(ctx.quick_or(160, 4000), |w, _| {
        for _ in 0..6 {
            let g = Grow::new(&mut w.r);
            for n in [1, 8, 40, 200, 255, 300, 3000, 40_000] {
                let h = hint(&mut w.r);
                let s = g.text(n);
                one(w, None, "bundled", h.map(|h| h.1), name(h), &s);
                w.op(&format!("is_viable({s:?})"), || phonenumber::is_viable(&s));
            }
        }
    });
    ctx.par(ctx.quick_or(96, 1200), |w, _| {
        let Some(p) = plan(w, 8) else { return };
        for _ in 0..150 {
            if w.over() {
                return;
            }
            let h = plan_hint(p.m(), &mut w.r);
            let ti = w.r.below(p.m().terrs.len());
            let s = if w.r.chance(1, 5) { garbage(&mut w.r) } else { text(&p.env, ti, Some(ti), &mut w.r) };
            one(w, Some(&p.db), &format!("custom {:?}", p.m().terrs.iter().map(|t| (&t.id, t.code)).collect::<Vec<_>>()), h.map(|h| h.1), name(h), &s);
        }
    });
    ctx.par(ctx.quick_or(96, 1200), |w, _| {
        for _ in 0..3 {
            let Some(db) = weird(w) else { continue };
            let show = format!("hostile {:?}", db).chars().take(3000).collect::<String>();
            for _ in 0..150 {
                if w.over() {
                    return;
                }
                let h = weird_hint(&db, &mut w.r);
                let s = weird_text(&db, &mut w.r);
                one(w, Some(&db), &show, h.map(|h| h.1), name(h), &s);
            }
        }
    });
}

pub fn well_formed(w: &mut W, p: &PhoneNumber, known: bool, call: &str) {
    let n = num(p);
    let case = || json!({ "call": call, "got": format!("{n:?}") });
    w.check(known, || ("the calling code is not one the database knows".into(), case()));
    let digits = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
    w.check(digits(&n.nsn) && (2..=17).contains(&n.nsn.len()), || {
        ("the national number is not 2 to 17 digits".into(), case())
    });
    let v = p.national().value();
    let z = p.national().zeros() as usize;
    w.check(n.nsn == format!("{}{v}", "0".repeat(z)), || {
        ("the national number does not print as its zeros and value".into(), case())
    });
    for x in [&n.ext, &n.carrier].into_iter().flatten() {
        w.check(digits(x), || ("an extension or carrier is not a string of digits".into(), case()));
    }
}

pub fn c04(ctx: &Ctx) {
    ctx.rule(
        "every successful parse of generated texts (all forms, decorations, garbage; bundled, custom and hostile \
         databases) is inspected. Distinct by (hint, text, result); only successes count.",
    );
    let e = env();
    fn one(w: &mut W, db: Option<&Database>, h: Option<Id>, hn: &str, s: &str) {
        let what = format!("parse({hn}, {s:?})");
        let got = w.op(&what, || match db {
            None => phonenumber::parse(h, s),
            Some(db) => phonenumber::parse_with(db, h, s),
        });
        if let Some(Ok(p)) = got {
            let d = db.unwrap_or(&phonenumber::metadata::DATABASE);
            let known = d.by_code(&p.code().value()).is_some();
            w.eval(&format!("{what}{:?}", num(&p)));
            if p.extension().is_some() {
                w.count("with extension");
            }
            if p.carrier().is_some() {
                w.count("with carrier");
            }
            if p.national().zeros() > 0 {
                w.count("with leading zeros");
            }
            w.sample(|| json!({ "call": what, "number": format!("{:?}", num(&p)) }));
            well_formed(w, &p, known, &what);
        }
    }
    ctx.par(e.m.terrs.len(), |w, ti| {
        for _ in 0..ctx.quick_or(900, 20_000) {
            if w.over() {
                return;
            }
            let (from, h) = pick(w, ti);
            let s = match w.r.below(10) {
                0 => garbage(&mut w.r),
                1 => {
                    // Numbers about as long as they can be.
                    let n = w.r.range(12, 22);
                    let d = w.r.digits(n);
                    format!("{}{}", if w.r.chance(1, 2) { format!("+{}", e.m.terrs[ti].code) } else { String::new() }, d)
                }
                _ => text(e, ti, from, &mut w.r),
            };
            one(w, None, h.map(|h| h.1), name(h), &s);
        }
    });
    // Every combination of extension notation and script.
    ctx.par(NOTATIONS.len(), |w, i| {
        let (a, z, max) = NOTATIONS[i];
        for zero in ZEROS {
            for n in 0..=max {
                let ext: String = w.r.digits(n).chars().map(|c| in_script(c, zero)).collect();
                let ti = w.r.below(e.m.terrs.len());
                let nsn = national(e, ti, &mut w.r);
                one(w, None, None, "none", &format!("+{} {nsn}{a}{ext}{z}", e.m.terrs[ti].code));
            }
        }
    });
    ctx.par(ctx.quick_or(64, 900), |w, _| {
        if let Some(p) = plan(w, 8) {
            for _ in 0..150 {
                let h = plan_hint(p.m(), &mut w.r);
                let ti = w.r.below(p.m().terrs.len());
                let s = text(&p.env, ti, Some(ti), &mut w.r);
                one(w, Some(&p.db), h.map(|h| h.1), name(h), &s);
            }
        }
        for _ in 0..8 {
            let Some(db) = weird(w) else { continue };
            for _ in 0..400 {
                let h = weird_hint(&db, &mut w.r);
                let s = weird_text(&db, &mut w.r);
                one(w, Some(&db), h.map(|h| h.1), name(h), &s);
            }
        }
    });
}

pub fn c18(ctx: &Ctx) {
    ctx.rule(
        "'+', a known calling code and national digits (valid, near-valid, with trunk prefixes, doubled zeros, \
         extensions, punctuation), parsed without a hint and with every region as hint. Distinct by text; each text is \
         evaluated under all hints.",
    );
    let e = env();
    let all = ids();
    fn one(w: &mut W, db: Option<&Database>, code: u16, s: &str, hints: &[(String, Id)]) {
        let parse = |h: Option<Id>| match db {
            None => phonenumber::parse(h, s),
            Some(db) => phonenumber::parse_with(db, h, s),
        };
        let Some(base) = w.op(&format!("parse(none, {s:?})"), || parse(None)) else { return };
        if let Ok(p) = &base {
            let c = p.code().value();
            w.check(c == code, || {
                ("the calling code is not the one in the text".into(), json!({ "text": s, "written": code, "got": c }))
            });
            w.count("accepted");
        }
        w.eval(s);
        w.sample(|| json!({ "text": s, "hints": hints.len(), "result": show(&base) }));
        let want = base.as_ref().ok().map(num);
        for (n, i) in hints {
            w.evals += 1;
            let Some(got) = w.op(&format!("parse({n}, {s:?})"), || parse(Some(*i))) else { return };
            let ok = w.check(got.as_ref().ok().map(num) == want, || {
                (
                    "a '+' number depends on the region hint".into(),
                    json!({ "text": s, "hint": n, "with": show(&got), "without": show(&base) }),
                )
            });
            if !ok {
                return;
            }
        }
    }
    fn plus_text(e: &Env, ti: usize, w: &mut W) -> String {
        let t = &e.m.terrs[ti];
        let n = national(e, ti, &mut w.r);
        let body = match w.r.below(8) {
            0 => format!("0{n}"),
            1 => format!("{}{n}", e.np[ti].as_ref().map_or("0".into(), |h| from_pattern(h, &mut w.r))),
            2 => format!("{}{n}", t.code),
            3 => format!("00{n}"),
            4 => random_nsn(&mut w.r),
            _ => n,
        };
        let plus = if w.r.chance(1, 6) { "\u{FF0B}" } else { "+" };
        let mut s = format!("{plus}{}{body}", t.code);
        if w.r.chance(1, 3) {
            s = punctuate(&s, &pure_separators(), &mut w.r);
        }
        if w.r.chance(1, 5) {
            let (a, z, max) = *w.r.pick(&NOTATIONS);
            let k = w.r.range(1, max);
            s = format!("{s}{a}{}{z}", w.r.digits(k));
        }
        s
    }
    ctx.par(e.m.terrs.len(), |w, ti| {
        for _ in 0..ctx.quick_or(26, 400) {
            if w.over() {
                return;
            }
            let s = plus_text(e, ti, w);
            one(w, None, e.m.terrs[ti].code, &s, all);
        }
    });
    // A region the database lacks is still only a hint.
    ctx.par(ctx.quick_or(32, 400), |w, _| {
        let Some(p) = plan(w, 6) else { return };
        for _ in 0..15 {
            let ti = w.r.below(p.m().terrs.len());
            let s = plus_text(&p.env, ti, w);
            one(w, Some(&p.db), p.m().terrs[ti].code, &s, &all[..40]);
            let own: Vec<(String, Id)> =
                p.m().terrs.iter().filter_map(|t| id(&t.id).map(|i| (t.id.clone(), i))).collect();
            one(w, Some(&p.db), p.m().terrs[ti].code, &s, &own);
        }
    });
}

/// Check one form of a valid number against what it must parse to; what the
/// metadata makes ambiguous is not judged.
fn form(w: &mut W, e: &Env, h: Hint, s: &str, want: &Num, what: &'static str) {
    w.eval(&format!("{}/{s}", name(h)));
    w.count(what);
    let model = e.m.parse(h.map(|h| h.0), s);
    let clear = model.as_ref().is_some_and(|m| {
        (m.code, &m.nsn, &m.ext) == (want.code, &want.nsn, &want.ext) && (want.source.is_empty() || m.source == want.source)
    });
    if !clear {
        w.count("ambiguous by the metadata, not judged");
        return;
    }
    let call = format!("parse({}, {s:?})", name(h));
    let Some(got) = w.op(&call, || phonenumber::parse(h.map(|h| h.1), s)) else { return };
    w.sample(|| json!({ "form": what, "call": call, "result": show(&got) }));
    let ok = got.as_ref().is_ok_and(|p| {
        let n = num(p);
        (n.code, &n.nsn, &n.ext) == (want.code, &want.nsn, &want.ext) && (want.source.is_empty() || n.source == want.source)
    });
    w.check(ok, || {
        (
            format!("a valid number written as {what} does not parse to it"),
            json!({ "call": call, "got": show(&got), "expected": format!("{want:?}") }),
        )
    });
}

pub fn c19(ctx: &Ctx) {
    ctx.rule(
        "numbers sampled for every territory, type and possible length, written in each dialling form (bare, national \
         prefix, '+', international prefix of a random region's plan, code without prefix). Distinct by (hint, text).",
    );
    let e = env();
    valid_numbers(ctx, ctx.quick_or(8, 150), |w, ti, _, nsn| {
        let t = &e.m.terrs[ti];
        // Only numbers the region is really given, of an unambiguous region.
        if !storable(nsn) || e.m.region(t.code, nsn).map(|r| &r.id) != Some(&t.id) || !e.m.valid(t.code, nsn) {
            w.count("sampled numbers of another region");
            return;
        }
        let want = |source| Num { code: t.code, nsn: nsn.into(), ext: None, carrier: None, source };
        let h = own(t);
        form(w, e, h, &format!("+{}{nsn}", t.code), &want("Plus"), "plus");
        form(w, e, None, &format!("+{}{nsn}", t.code), &want("Plus"), "plus, no hint");
        form(w, e, None, &format!("00{}{nsn}", t.code), &want("Idd"), "00, no hint");
        for _ in 0..3 {
            let f = w.r.below(e.m.terrs.len());
            if let (Some(i), Some(from)) = (&e.idd[f], own(&e.m.terrs[f])) {
                let idd = from_pattern(i, &mut w.r);
                form(w, e, Some(from), &format!("{idd}{}{nsn}", t.code), &want("Idd"), "international prefix");
                form(w, e, Some(from), &format!("+{}{nsn}", t.code), &want("Plus"), "plus, other hint");
            }
        }
        if h.is_some() {
            form(w, e, h, nsn, &want("Default"), "bare");
            if let Some(i) = &e.idd[ti] {
                let idd = from_pattern(i, &mut w.r);
                form(w, e, h, &format!("{idd}{}{nsn}", t.code), &want("Idd"), "own international prefix");
            }
            if let Some(np) = &t.np {
                // "1" is both prefix and code in NANPA: either source is right.
                let both = t.code.to_string() == *np;
                form(w, e, h, &format!("{np}{nsn}"), &want(if both { "" } else { "Default" }), "national prefix");
            }
            form(w, e, h, &format!("{}{nsn}", t.code), &want("Number"), "code without prefix");
        }
    });
}

/// Text without a digit or plus sign, a space or colon at its end.
fn leading_text(r: &mut crate::rng::Rng) -> String {
    const CHARS: &[char] = &[
        'a', 'F', 'x', 't', 'e', 'z', '#', '*', '=', ',', '~', '/', '\\', '(', '-', '.', ' ', ':', '@', '\n', '\0', '\u{E9}', '\u{301}', '\u{B2}',
        '\u{2167}', '\u{4E00}', '\u{5D0}', '\u{1F4DE}', '\u{200B}', '\u{FF58}', '\u{BD}', '\u{FEFF}', '\u{2469}', '\u{10FFFF}',
    ];
    let n = r.range(0, 8);
    let mut s: String = (0..n).map(|_| *r.pick(CHARS)).collect();
    s.push(*r.pick(&[' ', ':']));
    if r.chance(1, 3) {
        s.push(' ');
    }
    s
}

/// Text without letters and numbers (and hashes, which may mark an extension).
fn trailing_text(r: &mut crate::rng::Rng) -> String {
    const CHARS: &[char] = &[
        '.', ' ', '!', ')', '-', '*', '/', '\\', ',', ';', ':', '~', '=', '+', '(', '[', '"', '\'', '\n', '\t', '\0', '\u{301}', '\u{20E3}', '\u{FE0F}',
        '\u{200D}', '\u{200B}', '\u{AD}', '\u{1F4DE}', '\u{2014}', '\u{E000}', '\u{10FFFF}', '\u{FF0B}', '\u{FF5E}', '\u{20AC}', '\u{378}', '%', '&',
    ];
    let n = r.range(1, 6);
    (0..n).map(|_| *r.pick(CHARS)).collect()
}

pub fn c20(ctx: &Ctx) {
    ctx.rule(
        "a plain text of a sampled number (bare with hint, or '+'), and the same digits with separators, leading and \
         trailing text, a full-width plus, other scripts or letters. Distinct by decorated text.",
    );
    let e = env();
    let seps = pure_separators();
    valid_numbers(ctx, ctx.quick_or(12, 220), |w, ti, _, nsn| {
        let t = &e.m.terrs[ti];
        if !storable(nsn) {
            return;
        }
        let h = own(t);
        let (h, plain) = match w.r.below(4) {
            0 | 1 => (h, format!("+{}{nsn}", t.code)),
            2 if h.is_some() => (h, format!("{}{nsn}", t.np.as_deref().unwrap_or(""))),
            _ if h.is_some() => (h, nsn.to_string()),
            _ => (None, format!("+{}{nsn}", t.code)),
        };
        let parse = |s: &str| phonenumber::parse(h.map(|h| h.1), s);
        let Some(base) = w.op(&format!("parse({}, {plain:?})", name(h)), || parse(&plain)) else { return };
        for _ in 0..4 {
            let mut s = plain.clone();
            let mut letters = 0;
            let kind = w.r.below(10);
            match kind {
                0 | 1 => s = punctuate(&s, &seps, &mut w.r),
                2 => {
                    let z = *w.r.pick(&ZEROS);
                    s = s.chars().map(|c| in_script(c, z)).collect();
                }
                3 => {
                    let (y, z) = (*w.r.pick(&ZEROS), *w.r.pick(&ZEROS));
                    s = s.chars().map(|c| in_script(c, if w.r.chance(1, 2) { y } else { z })).collect();
                    s = punctuate(&s, &seps, &mut w.r);
                }
                4 => s = s.replace('+', "\u{FF0B}"),
                5 => {
                    // Letters in place of digits, three at least, all of them
                    // after the third digit.
                    let mut k = 0;
                    s = s
                        .chars()
                        .map(|c| {
                            k += c.is_ascii_digit() as usize;
                            if k > 3 && ('2'..='9').contains(&c) && w.r.chance(2, 3) {
                                letters += 1;
                                letter(c, &mut w.r)
                            } else {
                                c
                            }
                        })
                        .collect();
                    if letters < 3 {
                        continue;
                    }
                }
                6 => {
                    // One or two letters more, which are dropped.
                    let mut k = 0;
                    let mut left = 2;
                    let mut out = String::new();
                    for c in s.chars() {
                        k += c.is_ascii_digit() as usize;
                        out.push(c);
                        if k > 3 && left > 0 && w.r.chance(1, 4) {
                            out.push((b'A' + w.r.below(26) as u8) as char);
                            left -= 1;
                            letters += 1;
                        }
                    }
                    s = out;
                    if letters == 0 {
                        continue;
                    }
                }
                7 => {
                    s = punctuate(&s, &seps, &mut w.r);
                    s = if w.r.chance(1, 2) {
                        format!("{}{s}", w.r.pick(&["Tel: ", "call me at ", "(", "Fax/Phone: ", "\u{1F4DE} ", "a.b@example.com ", "\"", "[", "<", "\t"]))
                    } else {
                        format!("{}{s}", leading_text(&mut w.r))
                    };
                }
                8 => {
                    s = if w.r.chance(1, 2) {
                        format!("{s}{}", w.r.pick(&[".", " ", "!", ")", "...", "\"", " \u{2014} ", "\n", "]", " (!)", ">", "\u{1F4DE}", ",", ";", "?!"]))
                    } else {
                        format!("{s}{}", trailing_text(&mut w.r))
                    };
                }
                _ => {
                    // All of it at once.
                    s = s.replace('+', w.r.pick(&["+", "\u{FF0B}"]));
                    let z = *w.r.pick(&ZEROS);
                    s = s.chars().map(|c| in_script(c, z)).collect();
                    s = punctuate(&s, &seps, &mut w.r);
                    s = format!("{}{s}{}", leading_text(&mut w.r), trailing_text(&mut w.r));
                }
            }
            // A letter followed by digits can be an extension mark: not judged.
            if letters > 0 && split(&s).is_some_and(|p| p.1.is_some() || p.0.len() != s.len()) {
                w.count("letters that mark an extension, not judged");
                continue;
            }
            w.eval(&s);
            w.count(["separators", "separators", "script", "mixed scripts", "wide plus", "keypad letters", "dropped letters", "leading text", "trailing text", "all of it"][kind]);
            let call = format!("parse({}, {s:?})", name(h));
            let Some(got) = w.op(&call, || parse(&s)) else { return };
            w.sample(|| json!({ "plain": plain, "call": call, "result": show(&got) }));
            w.check(got.as_ref().ok().map(num) == base.as_ref().ok().map(num), || {
                (
                    "the presentation changes what a text parses to".into(),
                    json!({ "plain": plain, "decorated": s, "hint": name(h), "got": show(&got), "expected": show(&base) }),
                )
            });
        }
    });
}

pub fn c21(ctx: &Ctx) {
    ctx.rule(
        "sampled numbers x every notation x extensions of 0 to 7 digits (leading zeros and other scripts included), \
         and the same texts without an extension. Distinct by text.",
    );
    let e = env();
    valid_numbers(ctx, ctx.quick_or(6, 110), |w, ti, _, nsn| {
        let t = &e.m.terrs[ti];
        if !storable(nsn) {
            return;
        }
        let mut h = own(t);
        let body = if h.is_some() && w.r.chance(1, 2) {
            nsn.to_string()
        } else {
            if w.r.chance(1, 2) {
                h = None;
            }
            format!("+{}{nsn}", t.code)
        };
        let body = if w.r.chance(1, 2) { punctuate(&body, &pure_separators(), &mut w.r) } else { body };
        let parse = |s: &str| phonenumber::parse(h.map(|h| h.1), s);
        let Some(base) = w.op(&format!("parse({}, {body:?})", name(h)), || parse(&body)) else { return };
        let Ok(base) = base else { return };
        let base = num(&base);
        w.eval(&body);
        w.check(base.ext.is_none(), || {
            ("a text without an extension yields one".into(), json!({ "text": body, "got": format!("{base:?}") }))
        });
        for i in 0..6 {
            let (a, z, max) = if i < 3 {
                let (a, z, max) = *w.r.pick(&NOTATIONS);
                (a.to_string(), z.to_string(), max)
            } else {
                w.count("notations made by the grammar");
                notation(&mut w.r)
            };
            let k = if w.r.chance(1, 12) { 0 } else { w.r.range(1, max) };
            let mut ext = w.r.digits(k);
            if k > 1 && w.r.chance(1, 3) {
                ext.replace_range(..1, "0");
            }
            // Marks with letters are the same in any case.
            let a = if w.r.chance(1, 4) { a.to_uppercase() } else { a };
            let shown: String = match w.r.below(6) {
                // Only in ASCII can a URI parameter hold digits.
                0 if !(body.contains(' ')) && a.eq_ignore_ascii_case(";ext=") => ext.clone(),
                0 => {
                    let zero = *w.r.pick(&ZEROS);
                    ext.chars().map(|c| in_script(c, zero)).collect()
                }
                _ => ext.clone(),
            };
            if k == 0 && (a.trim().is_empty() || a.trim() == "-") {
                continue;
            }
            // A group of digits before a number sign is an extension itself.
            if k == 0 && (a.contains('#') || a.is_empty()) && body.contains([' ', '-']) {
                continue;
            }
            let tail = if k > 0 && w.r.chance(1, 8) { *w.r.pick(&[".", " ", "!", ")", "\u{201D}", ", "]) } else { "" };
            let s = format!("{body}{a}{shown}{z}{tail}");
            let call = format!("parse({}, {s:?})", name(h));
            w.eval(&s);
            let Some(got) = w.op(&call, || parse(&s)) else { return };
            w.sample(|| json!({ "call": call, "result": show(&got) }));
            if k == 0 {
                w.count("empty extensions");
                let ok = got.as_ref().map_or(true, |p| p.extension().is_none());
                w.check(ok, || ("an empty extension is reported".into(), json!({ "call": call, "got": show(&got) })));
                continue;
            }
            w.count("extensions");
            let want = Num { ext: Some(ext.clone()), ..base.clone() };
            w.check(got.as_ref().is_ok_and(|p| num(p) == want), || {
                (
                    "an extension is not recognised digit for digit".into(),
                    json!({ "call": call, "got": show(&got), "expected": format!("{want:?}") }),
                )
            });
        }
    });
}

/// Whether `a` is a subsequence of `b`.
fn inside(a: &str, b: &str) -> bool {
    let mut it = b.chars();
    a.chars().all(|c| it.any(|d| d == c))
}

pub fn c26(ctx: &Ctx) {
    ctx.rule(
        "texts that are almost or not at all phone numbers, and generated texts of all forms: acceptance and the \
         viability test are compared with the stated grammar and limits, and the digits of every result are traced to \
         digits of the text. Distinct by (hint, text).",
    );
    let e = env();
    let one = |w: &mut W, h: Hint, s: &str| {
        w.eval(&format!("{}/{s}", name(h)));
        if let Some(v) = w.op(&format!("is_viable({s:?})"), || phonenumber::is_viable(s)) {
            w.check(v == viable(s), || {
                ("the viability test does not follow the grammar".into(), json!({ "text": s, "viable": v }))
            });
        }
        let call = format!("parse({}, {s:?})", name(h));
        let Some(got) = w.op(&call, || phonenumber::parse(h.map(|h| h.1), s)) else { return };
        w.sample(|| json!({ "call": call, "result": show(&got) }));
        let want = e.m.parse(h.map(|h| h.0), s);
        w.check(got.is_ok() == want.is_some(), || {
            (
                if got.is_ok() { "a text that is not a phone number is accepted" } else { "a phone number is rejected" }.into(),
                json!({ "call": call, "got": show(&got), "expected": format!("{want:?}") }),
            )
        });
        let Ok(p) = got else {
            w.count("rejected");
            return;
        };
        w.count("accepted");
        let n = num(&p);
        // Every digit a text can contribute, vanity letters included.
        let all: String = s.chars().filter_map(|c| dec(c).or_else(|| keypad(c))).collect();
        let digits: String = s.chars().filter_map(dec).collect();
        let letters = s.chars().filter(|c| c.is_ascii_alphabetic()).count() >= 3;
        let pool = if letters { &all } else { &digits };
        w.check(n.nsn.len() >= 2 && n.nsn.len() <= 17 && e.m.by_code.contains_key(&n.code), || {
            ("the result is not within the limits".into(), json!({ "call": call, "got": format!("{n:?}") }))
        });
        let transforms = e
            .m
            .by_code
            .get(&n.code)
            .is_some_and(|l| l.iter().any(|&i| e.m.terrs[i].np_transform.is_some()));
        // A phone-context stands behind the digits it goes before.
        let context = s.contains("phone-context");
        if transforms || context {
            w.count("not traced (transform rule or phone-context)");
            return;
        }
        let made = if n.source == "Default" { n.nsn.clone() } else { format!("{}{}", n.code, n.nsn) };
        w.check(inside(&made, pool), || {
            ("the number has digits the text does not".into(), json!({ "call": call, "got": format!("{n:?}") }))
        });
    };
    ctx.par(e.m.terrs.len(), |w, ti| {
        for _ in 0..ctx.quick_or(900, 18_000) {
            if w.over() {
                return;
            }
            let (from, h) = pick(w, ti);
            let s = match w.r.below(6) {
                0 => garbage(&mut w.r),
                1 => {
                    // Unassigned and half-assigned calling codes.
                    let a = w.r.range(0, 1200);
                    let n = w.r.range(0, 16);
                    format!("{}{a}{}", w.r.pick(&["+", "00", "011", "+0", ""]), w.r.digits(n))
                }
                2 => {
                    // Around the length limits.
                    let n = *w.r.pick(&[0, 1, 2, 3, 4, 14, 15, 16, 17, 18, 19, 20, 40]);
                    let d = w.r.digits(n);
                    if w.r.chance(1, 2) {
                        format!("+{}{d}", e.m.terrs[ti].code)
                    } else {
                        d
                    }
                }
                3 => {
                    let b = w.r.range(0, 6);
                    let d = w.r.digits(b);
                    let mut v: Vec<char> = d.chars().collect();
                    for _ in 0..w.r.range(0, 6) {
                        let i = w.r.below(v.len() + 1);
                        let c = *w.r.pick(&['a', 'B', '-', ' ', '*', '(', '+', '#', '.', 'z', '\u{FF0B}', '\u{665}', ':', '@', '\u{E9}', '/', ',']);
                        v.insert(i, c);
                    }
                    v.into_iter().collect()
                }
                _ => text(e, ti, from, &mut w.r),
            };
            one(w, h, &s);
        }
    });
    ctx.par(1000, |w, c| {
        // Every three-digit start.
        for tail in ["5551234", "12", "1", "012345678"] {
            one(w, None, &format!("+{c:03}{tail}"));
            one(w, None, &format!("+{c}{tail}"));
            one(w, None, &format!("00{c}{tail}"));
        }
    });
}

/// Any other parameter the grammar allows.
fn parameter(r: &mut crate::rng::Rng) -> String {
    loop {
        let mut name = String::new();
        for i in 0..r.range(1, 6) {
            // One that starts with a digit would be an extension.
            let set: &[u8] = if i == 0 { b"abexyzEXP-" } else { b"abext-09PZ5" };
            name.push(char::from(*r.pick(set)));
        }
        // Names close to those that mean something.
        if r.chance(1, 3) {
            let known = *r.pick(&["ext", "phone-context", "isub"]);
            name = match r.below(5) {
                0 => format!("{known}{name}"),
                1 => format!("a{known}"),
                2 => known[..known.len() - 1].into(),
                3 => format!("x-{known}"),
                _ => known.replace('-', "").replace('t', "t-"),
            };
        }
        if ["ext", "phone-context"].contains(&name.to_ascii_lowercase().as_str()) {
            continue;
        }
        if r.chance(1, 4) {
            return format!(";{name}");
        }
        let mut value = String::new();
        for _ in 0..r.range(1, 8) {
            match r.below(8) {
                0 => value.push_str(*r.pick(&["%20", "%3b", "%3D", "%2B", "%C3%A9", "%7e"])),
                _ => value.push(char::from(*r.pick(b"[]/:&+$-_.!~*'()abzAZ019"))),
            }
        }
        return format!(";{name}={value}");
    }
}

pub fn c27(ctx: &Ctx) {
    ctx.rule(
        "tel: URIs built from sampled numbers by the RFC 3966 grammar (global and local form, visual separators \
         anywhere, phone-context, ext, other parameters with and without values, any order and case). Distinct by URI.",
    );
    let e = env();
    const PARAMS: [&str; 13] = [
        ";isub=1234", ";a=%A1", ";flag", ";x-y=[v6]:/b&c+d$e", ";postd=pp22", ";tsp=a.b.com", ";a=b;c=d", ";f;g",
        ";isub=alice%20b", ";a=-_.!~*'()", ";npdi", ";rn=+1-650", ";a=%3B%3d",
    ];
    valid_numbers(ctx, ctx.quick_or(10, 200), |w, ti, _, nsn| {
        let t = &e.m.terrs[ti];
        if !storable(nsn) {
            return;
        }
        let plain = format!("+{}{nsn}", t.code);
        let Some(Ok(base)) = w.op(&format!("parse(none, {plain:?})"), || phonenumber::parse(None, &plain)) else { return };
        let base = num(&base);
        for _ in 0..4 {
            let seps = ['-', '.', '(', ')'];
            let mut params: Vec<String> = vec![];
            let local = w.r.below(3);
            let body = match local {
                // Global.
                0 => format!("+{}", punctuate(&format!("{}{nsn}", t.code), &seps, &mut w.r)),
                // Local, the context supplying the code or more than that.
                1 => {
                    params.push(format!(";phone-context=+{}", t.code));
                    punctuate(nsn, &seps, &mut w.r)
                }
                _ => {
                    let k = w.r.range(0, nsn.len() - 1);
                    let lead = format!("{}{}", t.code, &nsn[..k]);
                    params.push(format!(";phone-context=+{}", punctuate(&lead, &seps, &mut w.r)));
                    punctuate(&nsn[k..], &seps, &mut w.r)
                }
            };
            // A body of one digit is not a number by itself.
            let mut ext = None;
            if w.r.chance(1, 2) {
                let k = w.r.range(1, 7);
                let x = w.r.digits(k);
                params.push(format!(";ext={x}"));
                ext = Some(x);
            }
            for _ in 0..w.r.below(4) {
                params.push(w.r.pick(&PARAMS).to_string());
            }
            if w.r.chance(1, 2) {
                params.push(parameter(&mut w.r));
            }
            // The names of parameters are case-insensitive.
            for p in &mut params {
                let (name, value) = p.split_once('=').map_or((p.clone(), None), |(n, v)| (n.to_string(), Some(v.to_string())));
                let name: String = name.chars().map(|c| if w.r.chance(1, 6) { c.to_ascii_uppercase() } else { c }).collect();
                *p = name + &value.map_or(String::new(), |v| format!("={v}"));
            }
            w.r.shuffle(&mut params);
            let scheme = *w.r.pick(&["tel:", "TEL:", "Tel:", "tEl:"]);
            let s = format!("{scheme}{body}{}", params.concat());
            let h = if w.r.chance(1, 2) { None } else { hint(&mut w.r) };
            let call = format!("parse({}, {s:?})", name(h));
            w.eval(&s);
            w.count(["global", "local with code as context", "local with more as context"][local]);
            let Some(got) = w.op(&call, || phonenumber::parse(h.map(|h| h.1), &s)) else { return };
            w.sample(|| json!({ "call": call, "result": show(&got) }));
            let want = Num { ext, ..base.clone() };
            w.check(got.as_ref().is_ok_and(|p| num(p) == want), || {
                (
                    "a tel: URI is not read by its grammar".into(),
                    json!({ "call": call, "got": show(&got), "expected": format!("{want:?}") }),
                )
            });
        }
        // A context that is a domain says nothing about the digits.
        if let Some(h) = own(t) {
            let dom = *w.r.pick(&["example.com", "a-b.example.org", "x.y"]);
            let s = format!("tel:{nsn};phone-context={dom}");
            let a = w.op(&format!("parse({}, {s:?})", h.0), || phonenumber::parse(Some(h.1), &s));
            let b = w.op(&format!("parse({}, {nsn:?})", h.0), || phonenumber::parse(Some(h.1), nsn));
            if let (Some(a), Some(b)) = (a, b) {
                w.eval(&s);
                w.count("local with a domain as context");
                w.check(a.as_ref().ok().map(num) == b.as_ref().ok().map(num), || {
                    ("a domain as phone-context changes the number".into(), json!({ "text": s, "hint": h.0, "got": show(&a), "expected": show(&b) }))
                });
            }
        }
    });
}

fn stripping(w: &mut W, e: &Env, db: Option<&Database>, h: Hint, s: &str) {
    let Some((hn, _)) = h else { return };
    w.eval(&format!("{hn}/{s}"));
    let Some(Ok(p)) = same(w, e.m, db, h, s) else { return };
    let n = num(&p);
    w.sample(|| json!({ "hint": hn, "text": s, "result": format!("{n:?}") }));
    w.count(match n.source {
        "Default" => "default",
        "Number" => "code stripped",
        "Idd" => "international prefix stripped",
        _ => "plus",
    });
    if n.carrier.is_some() {
        w.count("with carrier");
    }
    let Some(t) = e.m.terr(hn) else { return };
    let case = || json!({ "hint": hn, "text": s, "got": format!("{n:?}") });
    if n.source == "Default" {
        w.check(n.code == t.code, || ("the calling code is not the region's".into(), case()));
        if n.nsn != s {
            w.count("prefix stripped");
        }
        if t.general().fits(s) {
            w.check(t.general().fits(&n.nsn), || {
                ("stripping made a number of valid form invalid".into(), case())
            });
        }
        w.check(n.nsn == s || matches!(t.length(n.nsn.len()), Len::Possible | Len::Long), || {
            ("stripping left a number of impossible length".into(), case())
        });
    }
    if n.source == "Number" {
        w.check(!t.general().fits(s) || t.length(s.len()) == Len::Long, || {
            ("a calling code was taken from a possible number".into(), case())
        });
    }
    if let Some(c) = &n.carrier {
        w.check(s.contains(c.as_str()), || ("the carrier is not in the text".into(), case()));
    }
}

pub fn c28(ctx: &Ctx) {
    ctx.rule(
        "digit texts in every region: sampled valid and near-valid numbers bare, with the national prefix, with text \
         sampled from the region's prefix pattern (carrier codes included), doubly prefixed, beginning with the calling \
         code; bundled and made-up plans; compared with the stated rules and with the reference procedure. Distinct by \
         (region, text).",
    );
    let e = env();
    fn digits_text(e: &Env, ti: usize, w: &mut W) -> String {
        let t = &e.m.terrs[ti];
        let n = national(e, ti, &mut w.r);
        let np = |w: &mut W| match &e.np[ti] {
            Some(h) => from_pattern(h, &mut w.r),
            None => t.np.clone().unwrap_or("0".into()),
        };
        match w.r.below(12) {
            0 | 1 => n,
            2 => format!("{}{n}", t.np.as_deref().unwrap_or("0")),
            3..=5 => format!("{}{n}", np(w)),
            6 => format!("{}{}{n}", np(w), np(w)),
            7 | 8 => format!("{}{n}", t.code),
            9 => format!("{}{}{n}", t.code, np(w)),
            10 => format!("{}{}{n}", np(w), t.code),
            _ => np(w),
        }
    }
    ctx.par(e.m.terrs.len(), |w, ti| {
        for _ in 0..ctx.quick_or(900, 18_000) {
            if w.over() {
                return;
            }
            let s = digits_text(e, ti, w);
            let h = own(&e.m.terrs[ti]);
            stripping(w, e, None, h, &s);
            // The same behind a plus, where the zeros cannot mislead.
            let t = &e.m.terrs[ti];
            if w.r.chance(1, 4) {
                same(w, e.m, None, h, &format!("+{}{s}", t.code));
            }
        }
    });
    ctx.par(ctx.quick_or(160, 2500), |w, _| {
        let Some(p) = plan(w, 6) else { return };
        for _ in 0..120 {
            if w.over() {
                return;
            }
            let ti = w.r.below(p.m().terrs.len());
            let s = digits_text(&p.env, ti, w);
            stripping(w, &p.env, Some(&p.db), own(&p.m().terrs[ti]), &s);
        }
    });
}
