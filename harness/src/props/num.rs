//! Numbers: totality of their operations, validity, type, region, formatting,
//! the national number, equality and serialisation.

use super::parse::{weird, weird_hint, weird_text};
use crate::gen::*;
use crate::model::*;
use crate::mon::{Ctx, W};
use crate::rng::Rng;
use crate::util::*;
use crate::work::*;
use phonenumber::metadata::{Database, Format, DATABASE};
use phonenumber::{NationalNumber, PhoneNumber};
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::fmt::Write;
use std::hash::{Hash, Hasher};

/// A number's text, or `None` for a formatting error.
pub fn print(f: phonenumber::Formatter) -> Option<String> {
    let mut s = String::new();
    write!(s, "{f}").ok().map(|_| s)
}

pub fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// A number no parse returns, through its serialised form.
pub fn serialised(r: &mut Rng, code: u16) -> Option<PhoneNumber> {
    let base = serde_json::to_value(phonenumber::parse(None, "+16502530000").ok()?).ok()?;
    let mut v = base;
    let packed = match r.below(6) {
        0 => r.u64(),
        1 => r.u64() >> r.below(64),
        2 => (r.below(256) as u64) << 56,
        3 => *r.pick(&[0, 1, (1 << 56) - 1, 1 << 56, u64::MAX, u64::MAX - 1, 1 << 63]),
        _ => {
            let d = random_nsn(r);
            let z = d.len() - d.trim_start_matches('0').len();
            (z as u64) << 56 | d.parse::<u64>().unwrap()
        }
    };
    let texts = ["", "1", "0", "007", "$1", "${1}", "$NP", "$FG", "x", "\u{E9}", ";ext=1", "a b", "99999999999999999999", "\n"];
    let opt = |r: &mut Rng| match r.below(6) {
        0..=2 => Value::Null,
        3 => {
            // Something longer, of characters of any size.
            let n = r.range(1, 80);
            json!((0..n).map(|_| *r.pick(&['1', 'a', '\u{E9}', '\u{661}', '\u{FF11}', '\u{1F600}', '$', '{', '}', ' '])).collect::<String>())
        }
        _ => json!(r.pick(&texts)),
    };
    v["code"]["value"] = json!(code);
    v["code"]["source"] = json!(r.pick(&["plus", "idd", "number", "default"]));
    v["national"]["value"] = json!(packed);
    v["extension"] = opt(r);
    v["carrier"] = opt(r);
    serde_json::from_value(v).ok()
}

fn exercise(w: &mut W, p: &PhoneNumber, dbs: &[(&str, &Database)], formats: &[&Format]) {
    let what = serde_json::to_string(p).unwrap_or_default();
    w.eval(&what);
    w.sample(|| json!({ "number": what }));
    w.op(&format!("accessors of {what}"), || {
        let n = p.national();
        (p.code().value(), p.code().source(), p.country().code(), n.value(), n.zeros(), n.to_string(), u64::from(*n));
        (p.extension().map(|e| e.to_string()), p.carrier().map(|c| c.to_string()), u16::from(*p.code()));
        (format!("{p:?}"), p.clone() == *p, hash_of(p), serde_json::to_string(p).is_ok());
    });
    w.op(&format!("default operations of {what}"), || {
        (p.is_valid(), phonenumber::is_valid(p), p.number_type(), p.country().id().is_ok());
    });
    for (name, db) in dbs {
        let known = db.by_code(&p.code().value()).is_some();
        w.op(&format!("operations of {what} with {name}"), || {
            (p.is_valid_with(db), phonenumber::is_valid_with(db, p), p.number_type_with(db), p.metadata(db).map(|m| m.id()));
        });
        for (mode, m) in MODES {
            let Some(text) = w.op(&format!("format {mode} of {what} with {name}"), || print(p.format_with(db).mode(m))) else {
                continue;
            };
            w.count("formatted");
            w.check(text.is_some() == known, || {
                (
                    "formatting must fail exactly when the calling code is not in the database".into(),
                    json!({ "number": what, "mode": mode, "database": name, "text": text, "known": known }),
                )
            });
            for f in formats {
                w.op(&format!("format {mode} of {what} with {name} and {f:?}"), || {
                    print(phonenumber::format_with(db, p).mode(m).with(f))
                });
            }
        }
    }
    let known = DATABASE.by_code(&p.code().value()).is_some();
    for (mode, m) in MODES {
        let text = w.op(&format!("format {mode} of {what}"), || print(phonenumber::format(p).mode(m)));
        w.check(text.map_or(true, |t| t.is_some() == known), || {
            ("formatting must fail exactly when the calling code is not in the database".into(), json!({ "number": what, "mode": mode }))
        });
    }
    w.op(&format!("Display of {what}"), || {
        let mut s = String::new();
        write!(s, "{p}").is_ok()
    });
}

pub fn c03(ctx: &Ctx) {
    ctx.rule(
        "numbers returned by parsing generated texts (bundled, custom and hostile databases) and numbers deserialised \
         from arbitrary field values; every accessor, mode, explicit format, validity, type and region operation with \
         every database at hand. Distinct by serialised number.",
    );
    let e = env();
    let all: Vec<&Format> = DATABASE.iter().flat_map(|m| m.formats()).collect();
    ctx.par(e.m.terrs.len(), |w, ti| {
        for _ in 0..ctx.quick_or(60, 1500) {
            if w.over() {
                return;
            }
            let s = text(e, ti, Some(ti), &mut w.r);
            let h = own(&e.m.terrs[ti]).map(|h| h.1).filter(|_| w.r.chance(3, 4));
            let f = if all.is_empty() { vec![] } else { vec![*w.r.pick(&all)] };
            if let Some(Ok(p)) = w.op(&format!("parse({h:?}, {s:?})"), || phonenumber::parse(h, &s)) {
                w.count("parsed numbers");
                exercise(w, &p, &[("bundled", &DATABASE)], &f);
            }
            let code = if w.r.chance(2, 3) { e.m.terrs[ti].code } else { w.r.u64() as u16 };
            if let Some(p) = serialised(&mut w.r, code) {
                w.count("deserialised numbers");
                exercise(w, &p, &[("bundled", &DATABASE)], &f);
            }
        }
    });
    ctx.par(ctx.quick_or(120, 2000), |w, _| {
        let plan = plan(w, 6);
        for _ in 0..3 {
            let Some(db) = weird(w) else { continue };
            let show: String = format!("hostile {db:?}").chars().take(2500).collect();
            let mut dbs = vec![(show.as_str(), &db)];
            if let Some(p) = &plan {
                dbs.push(("custom", &p.db));
            }
            let codes: Vec<u16> = dbs.iter().flat_map(|d| d.1.iter()).map(|m| m.country_code()).collect();
            let formats: Vec<&Format> = db.iter().flat_map(|m| m.formats()).collect();
            for _ in 0..25 {
                if w.over() {
                    return;
                }
                let f = if formats.is_empty() { vec![] } else { vec![*w.r.pick(&formats)] };
                let code = if codes.is_empty() { 1 } else { *w.r.pick(&codes) };
                if let Some(p) = serialised(&mut w.r, code) {
                    w.count("deserialised numbers");
                    exercise(w, &p, &dbs, &f);
                }
                let s = weird_text(&db, &mut w.r);
                let h = weird_hint(&db, &mut w.r).map(|h| h.1);
                if let Some(Ok(p)) = w.op(&format!("{show}: parse({h:?}, {s:?})"), || phonenumber::parse_with(&db, h, &s)) {
                    w.count("parsed numbers");
                    exercise(w, &p, &dbs, &f);
                }
            }
        }
    });
}

/// Numbers whose classification matters: sampled from every description,
/// close to it, padded with zeros, of any length, of any code.
fn numbers(ctx: &Ctx, reps: usize, plans: usize, f: impl Fn(&mut W, &'static Model, Option<&Database>, u16, &str) + Sync) {
    let e = env();
    valid_numbers(ctx, reps, |w, ti, _, n| {
        let code = e.m.terrs[ti].code;
        let v = near(n, &mut w.r);
        let z = format!("0{n}");
        for s in [n, &v, &z] {
            if storable(s) {
                f(w, e.m, None, code, s);
            }
        }
        if w.r.chance(1, 6) {
            let s = random_nsn(&mut w.r);
            f(w, e.m, None, code, &s);
            let code = w.r.below(1100) as u16;
            f(w, e.m, None, code, &s);
            f(w, e.m, None, code, n);
        }
    });
    ctx.par(plans, |w, _| {
        let Some(p) = plan(w, 8) else { return };
        for _ in 0..200 {
            if w.over() {
                return;
            }
            let ti = w.r.below(p.m().terrs.len());
            let n = national(&p.env, ti, &mut w.r);
            if storable(&n) {
                f(w, p.m(), Some(&p.db), p.m().terrs[ti].code, &n);
            }
        }
    });
}

fn made(w: &mut W, code: u16, nsn: &str) -> Option<PhoneNumber> {
    let p = number(code, nsn);
    if p.is_none() {
        w.count("numbers that could not be made");
    }
    p
}

fn case(m: &Model, db: Option<&Database>, code: u16, nsn: &str) -> Value {
    let terrs: Vec<String> = m
        .by_code
        .get(&code)
        .map_or(vec![], |l| l.iter().map(|&i| m.terrs[i].id.clone()).collect());
    json!({ "calling code": code, "national": nsn, "database": if db.is_some() { "custom" } else { "bundled" }, "regions": terrs })
}

pub fn c10(ctx: &Ctx) {
    ctx.rule(
        "national numbers sampled from every pattern and length, one digit away, zero-padded, random, under known and \
         unknown codes, bundled and made-up plans; validity compared with full-pattern and length membership evaluated \
         by the oracle from the XML. Distinct by (code, number).",
    );
    numbers(ctx, ctx.quick_or(22, 400), ctx.quick_or(160, 2500), |w, m, db, code, n| {
        let Some(p) = made(w, code, n) else { return };
        w.eval(&format!("{code}/{n}"));
        let what = format!("validity of +{code} {n}");
        let want = m.valid(code, n);
        w.count(if want { "valid" } else { "invalid" });
        let d = db.unwrap_or(&DATABASE);
        let Some(got) = w.op(&what, || {
            let mut v = vec![p.is_valid_with(d), phonenumber::is_valid_with(d, &p)];
            if db.is_none() {
                v.push(p.is_valid());
                v.push(phonenumber::is_valid(&p));
            }
            v
        }) else {
            return;
        };
        w.sample(|| json!({ "number": format!("+{code} {n}"), "valid": want }));
        w.check(got.iter().all(|&g| g == want), || {
            (format!("validity should be {want} but the tests say {got:?}"), case(m, db, code, n))
        });
        // The descriptions themselves.
        if let Some(t) = m.region(code, n).filter(|t| t.id != "001") {
            let Some(meta) = d.by_id(&t.id) else { return };
            for (k, got) in super::meta::descriptors(meta) {
                let (Some(desc), Some(got)) = (t.desc(k), got) else { continue };
                let g = w.op(&format!("{k:?} of {} matches {n}", t.id), || got.is_match(n));
                let want = desc.fits(n);
                w.check(g.map_or(true, |g| g == want), || {
                    (format!("the {k:?} description should say {want}"), case(m, db, code, n))
                });
            }
        }
    });
}

pub fn c11(ctx: &Ctx) {
    ctx.rule(
        "as for validity; the reported type is compared with the precedence evaluated by the oracle, and unknown with \
         invalid. Distinct by (code, number).",
    );
    numbers(ctx, ctx.quick_or(26, 450), ctx.quick_or(200, 3000), |w, m, db, code, n| {
        let Some(p) = made(w, code, n) else { return };
        w.eval(&format!("{code}/{n}"));
        let d = db.unwrap_or(&DATABASE);
        let want = m.kind(code, n);
        let Some((got, valid)) = w.op(&format!("type of +{code} {n}"), || (kind(&p, db), p.is_valid_with(d))) else { return };
        w.sample(|| json!({ "number": format!("+{code} {n}"), "type": want }));
        w.count(want);
        w.check(got == want, || (format!("the type should be {want} but is {got}"), case(m, db, code, n)));
        w.check((got == "Unknown") == !valid, || {
            (format!("the type is {got} but the number is {}", if valid { "valid" } else { "invalid" }), case(m, db, code, n))
        });
        if db.is_none() {
            let with = w.op("type with the bundled database", || kind(&p, Some(&DATABASE)));
            w.check(with.as_ref().map_or(true, |x| *x == got), || ("the two forms of the type disagree".into(), case(m, db, code, n)));
        }
    });
}

pub fn c12(ctx: &Ctx) {
    ctx.rule(
        "as for validity, with all numbers of shared codes (and of made-up shared codes, in any document order); the \
         reported region is compared with the documented scan evaluated by the oracle. Distinct by (code, number).",
    );
    let one = |w: &mut W, m: &'static Model, db: Option<&Database>, code: u16, n: &str| {
        let Some(p) = made(w, code, n) else { return };
        w.eval(&format!("{code}/{n}"));
        let d = db.unwrap_or(&DATABASE);
        let region = m.region(code, n);
        let want = region.map(|t| (t.id.clone(), t.code));
        let got = w.op(&format!("metadata of +{code} {n}"), || p.metadata(d).map(|x| (x.id().to_string(), x.country_code())));
        let Some(got) = got else { return };
        w.sample(|| json!({ "number": format!("+{code} {n}"), "region": want }));
        w.count(match (&want, m.by_code.get(&code).map_or(0, |l| l.len())) {
            (None, _) => "no region",
            (_, 1) => "the code's only region",
            _ => "one of several regions",
        });
        w.check(got == want, || (format!("the region should be {want:?} but is {got:?}"), case(m, db, code, n)));
        if db.is_none() {
            let want = region.map(|t| t.id.clone()).filter(|i| i != "001");
            let Some(got) = w.op(&format!("country of +{code} {n}"), || {
                p.country().id().ok().flatten().map(|i| i.as_ref().to_string())
            }) else {
                return;
            };
            w.check(got == want, || (format!("the country should be {want:?} but is {got:?}"), case(m, db, code, n)));
        }
    };
    numbers(ctx, ctx.quick_or(20, 350), ctx.quick_or(240, 4000), one);
    // Shared codes in depth: every number of one region against all the others.
    let e = env();
    let shared: Vec<u16> = e.m.by_code.iter().filter(|(_, l)| l.len() > 1).map(|(c, _)| *c).collect();
    ctx.par(shared.len() * 8, |w, i| {
        let code = shared[i % shared.len()];
        let list = &e.m.by_code[&code];
        for _ in 0..ctx.quick_or(600, 10_000) {
            if w.over() {
                return;
            }
            let mut n = national(e, *w.r.pick(list), &mut w.r);
            if w.r.chance(1, 3) {
                // Begin as another region's numbers do.
                let o = &e.m.terrs[*w.r.pick(list)];
                if let Some(l) = &o.leading {
                    let head = from_pattern(&hir(l), &mut w.r);
                    if head.len() < n.len() {
                        n.replace_range(..head.len(), &head);
                    }
                }
            }
            if storable(&n) {
                one(w, e.m, None, code, &n);
            }
        }
    });
}

fn extras(r: &mut Rng) -> (Option<String>, Option<String>) {
    let ext = r.chance(1, 4).then(|| {
        let k = if r.chance(1, 6) { r.range(8, 40) } else { r.range(1, 7) };
        r.digits(k)
    });
    let carrier = r.chance(1, 4).then(|| {
        let k = if r.chance(1, 8) { r.range(5, 12) } else { r.range(1, 4) };
        r.digits(k)
    });
    (ext, carrier)
}

/// Numbers of every kind with extensions and carriers, under the shipped
/// metadata.
fn printed(ctx: &Ctx, reps: usize, f: impl Fn(&mut W, &PhoneNumber, &Num) + Sync) {
    let e = env();
    let one = |w: &mut W, code: u16, s: &str| {
        if !storable(s) {
            return;
        }
        let (ext, carrier) = extras(&mut w.r);
        let p = build(code, s, ext.as_deref(), carrier.as_deref()).or_else(|| number(code, s));
        let Some(p) = p else {
            w.count("numbers that could not be made");
            return;
        };
        let p = sourced(p, &mut w.r);
        let n = num(&p);
        w.eval(&format!("{code}/{s}/{:?}/{:?}", n.ext, n.carrier));
        f(w, &p, &n);
    };
    valid_numbers(ctx, reps, |w, ti, _, n| {
        let code = e.m.terrs[ti].code;
        one(w, code, n);
        let v = near(n, &mut w.r);
        one(w, code, &v);
        if w.r.chance(1, 4) {
            let v = random_nsn(&mut w.r);
            one(w, code, &v);
        }
    });
    // Numbers made to fit each format rule rather than each type.
    ctx.par(e.m.terrs.len(), |w, ti| {
        let t = &e.m.terrs[ti];
        for f in t.fmts.iter().chain(&t.intl) {
            let p = hir(&f.pattern);
            let l = f.leading.last().map(hir);
            for _ in 0..ctx.quick_or(10, 200) {
                let mut n = from_pattern(&p, &mut w.r);
                if let Some(l) = &l {
                    let head = from_pattern(l, &mut w.r);
                    if head.len() <= n.len() {
                        n.replace_range(..head.len(), &head);
                    }
                }
                one(w, t.code, &n);
            }
        }
    });
}

/// Whether a format's pattern is nothing but groups, each of which its format
/// string writes once and in order, with no digit of its own.
fn keeps(f: &Format) -> bool {
    use regex_syntax::hir::HirKind;
    let Ok(h) = regex_syntax::Parser::new().parse(f.pattern().as_str()) else { return false };
    let groups = match h.kind() {
        HirKind::Capture(_) => 1,
        HirKind::Concat(l) if l.iter().all(|h| matches!(h.kind(), HirKind::Capture(_))) => l.len(),
        _ => return false,
    };
    let nested = h.properties().explicit_captures_len() != groups;
    let digits: Vec<usize> = f.format().chars().filter_map(|c| c.to_digit(10)).map(|d| d as usize).collect();
    let dollars = f.format().matches('$').count();
    !nested && dollars == groups && digits == (1..=groups).collect::<Vec<_>>()
}

pub fn c16(ctx: &Ctx) {
    ctx.rule(
        "numbers of every code (valid or not, every length, made to fit each format rule), with and without extension \
         and carrier; the digits and the shape of the international, RFC 3966 and E.164 texts; the same under any \
         supplied format that writes each of its groups once and in order, also one that fits only part of the number. \
         Distinct by number.",
    );
    let supplied: Vec<&Format> = DATABASE.iter().flat_map(|m| m.formats().iter().chain(m.international_formats())).filter(|f| keeps(f)).collect();
    printed(ctx, ctx.quick_or(26, 500), |w, p, n| {
        for _ in 0..2 {
            let f = *w.r.pick(&supplied);
            let Some(x) = f.pattern().find(&n.nsn) else {
                w.count("supplied formats that do not fit");
                continue;
            };
            w.count(if x.len() == n.nsn.len() { "supplied formats that fit" } else { "supplied formats that fit in part" });
            let want = format!("{}{}", n.code, n.nsn);
            for (mode, x) in [MODES[0], MODES[1], MODES[3]] {
                let Some(got) = w.op(&format!("format {mode} of {n:?} with {f:?}"), || print(phonenumber::format(p).with(f).mode(x))) else { return };
                let digits: String = got.iter().flat_map(|t| t.chars()).filter(|c| c.is_numeric()).collect();
                let rest = digits.strip_prefix(&want);
                let ext = if mode == "E164" { "" } else { n.ext.as_deref().unwrap_or("") };
                w.check(rest == Some(ext), || {
                    ("a supplied format changes the digits".into(), json!({ "number": format!("{n:?}"), "mode": mode, "format": format!("{:?}", (f.pattern().as_str(), f.format())), "got": got }))
                });
            }
        }
        let what = format!("format of {n:?}");
        let Some(t) = w.op(&what, || MODES.map(|(_, m)| print(p.format().mode(m)))) else { return };
        let [Some(e164), Some(intl), Some(_), Some(uri)] = t else {
            w.fail("a number of a known code does not print".into(), json!({ "number": format!("{n:?}") }));
            return;
        };
        w.sample(|| json!({ "number": format!("{n:?}"), "international": intl, "rfc3966": uri }));
        let want = format!("{}{}", n.code, n.nsn);
        let case = |text: &str| json!({ "number": format!("{n:?}"), "text": text });
        w.check(e164 == format!("+{want}"), || ("E.164 text is not '+' and all the digits".into(), case(&e164)));

        let pref = env().m.main(n.code).and_then(|t| t.pref_ext.clone()).unwrap_or(" ext. ".into());
        let body = match &n.ext {
            Some(x) => intl.strip_suffix(format!("{pref}{x}").as_str()),
            None => Some(intl.as_str()),
        };
        let digits = |s: &str| s.chars().filter(|c| c.is_numeric()).collect::<String>();
        w.check(body.is_some(), || ("international text does not end with the extension".into(), case(&intl)));
        if let Some(b) = body {
            w.check(digits(b) == want, || ("international text does not have exactly the number's digits".into(), case(&intl)));
            w.check(b.starts_with('+') && !b.chars().any(|c| c.is_alphabetic()), || {
                ("international text has more than punctuation between the digits".into(), case(&intl))
            });
        }

        let (body, ext) = match uri.split_once(";ext=") {
            Some((b, x)) => (b, Some(x.to_string())),
            None => (uri.as_str(), None),
        };
        w.check(ext == n.ext, || ("RFC 3966 text does not carry exactly the extension".into(), case(&uri)));
        let shape = body.strip_prefix("tel:+").is_some_and(|b| {
            b.split('-').all(|g| !g.is_empty() && g.bytes().all(|c| c.is_ascii_digit()))
                && b.strip_prefix(&n.code.to_string()).is_some_and(|r| r.starts_with('-'))
        });
        w.check(shape, || ("RFC 3966 text is not 'tel:+' and groups of digits with single '-'".into(), case(&uri)));
        w.check(digits(body) == want, || ("RFC 3966 text does not have exactly the number's digits".into(), case(&uri)));
    });
}

/// Format rules are told apart by what they are, not where they are.
fn same_rule(f: &Format, r: &Fmt) -> bool {
    f.format() == r.format
        && f.national_prefix() == r.np_rule.as_deref()
        && f.domestic_carrier() == r.carrier.as_deref()
        && f.leading_digits().len() == r.leading.len()
}

pub fn c17(ctx: &Ctx) {
    ctx.rule(
        "numbers of every code and made to fit each format rule, with and without carrier, in every mode, against the \
         text the oracle builds from the XML; the same over made-up plans and with explicitly supplied formats. \
         Distinct by number.",
    );
    fn compare(w: &mut W, m: &Model, db: Option<&Database>, p: &PhoneNumber, n: &Num) {
        for (mode, x) in MODES {
            let what = format!("format {mode} of {n:?}");
            let Some(got) = w.op(&what, || match db {
                None => print(p.format().mode(x)),
                Some(db) => print(p.format_with(db).mode(x)),
            }) else {
                return;
            };
            let want = m.format(n, mode);
            let rule = m.rule(n.code, &n.nsn, mode == "National");
            w.count(if rule.is_some() { "formatted by a rule" } else { "no rule applies" });
            w.check(got == want, || {
                (
                    "the text is not what the selected rule gives".into(),
                    json!({ "number": format!("{n:?}"), "mode": mode, "got": got, "expected": want,
                            "rule": format!("{:?}", rule.map(|r| (&r.pattern.src, &r.format, &r.np_rule, &r.carrier))),
                            "database": if db.is_some() { "custom" } else { "bundled" } }),
                )
            });
            if w.r.chance(1, 16) {
                let d = db.unwrap_or(&DATABASE);
                let again = w.op(&what, || print(phonenumber::format(p).database(d).mode(x)));
                w.check(again == Some(got.clone()), || {
                    ("the ways to build a formatter disagree".into(), json!({ "number": format!("{n:?}"), "mode": mode, "got": again, "expected": got }))
                });
            }
        }
        // Any other rule the number fits, given explicitly.
        let d = db.unwrap_or(&DATABASE);
        if w.r.chance(1, 3) {
            let t = &m.terrs[w.r.below(m.terrs.len())];
            let Some(meta) = d.by_id(&t.id).filter(|_| t.id != "001") else { return };
            let formats = meta.formats();
            for (f, r) in formats.iter().zip(&t.fmts) {
                if !r.pattern.full(&n.nsn) || !same_rule(f, r) || f.pattern().find(&n.nsn).is_none_or(|x| x.len() != n.nsn.len()) {
                    continue;
                }
                w.count("explicit formats");
                for (mode, x) in MODES {
                    let Some(got) = w.op(&format!("format {mode} of {n:?} with {f:?}"), || {
                        print(phonenumber::format_with(d, p).with(f).mode(x))
                    }) else {
                        return;
                    };
                    let want = m.format_by(n, mode, Some(r));
                    w.check(got == want, || {
                        (
                            "an explicit format does not override the selection".into(),
                            json!({ "number": format!("{n:?}"), "mode": mode, "format": format!("{:?}", (&r.pattern.src, &r.format, &r.np_rule, &r.carrier)), "got": got, "expected": want }),
                        )
                    });
                }
            }
        }
    }
    printed(ctx, ctx.quick_or(24, 450), |w, p, n| {
        w.sample(|| json!({ "number": format!("{n:?}"), "national": env().m.format(n, "National") }));
        compare(w, env().m, None, p, n);
    });
    ctx.par(ctx.quick_or(300, 5000), |w, _| {
        let Some(pl) = plan(w, 6) else { return };
        let m = pl.m();
        for _ in 0..80 {
            if w.over() {
                return;
            }
            let ti = w.r.below(m.terrs.len());
            let t = m.main(m.terrs[ti].code).unwrap();
            let n = if w.r.chance(1, 2) && !t.fmts.is_empty() {
                let f = w.r.pick(&t.fmts);
                let h = hir(&f.pattern);
                let mut n = from_pattern(&h, &mut w.r);
                if let Some(l) = f.leading.last() {
                    let head = from_pattern(&hir(l), &mut w.r);
                    if head.len() <= n.len() {
                        n.replace_range(..head.len(), &head);
                    }
                }
                n
            } else {
                national(&pl.env, ti, &mut w.r)
            };
            if !storable(&n) {
                continue;
            }
            let (ext, carrier) = extras(&mut w.r);
            let Some(p) = build(t.code, &n, ext.as_deref(), carrier.as_deref()) else { continue };
            let n = num(&p);
            w.eval(&format!("{n:?}"));
            compare(w, m, Some(&pl.db), &p, &n);
        }
    });
}

pub fn c22(ctx: &Ctx) {
    ctx.rule(
        "pairs of value (all magnitudes and boundaries) and zero count (all 256), and strings: digits with any number \
         of zeros, signs, other scripts, junk. Distinct by pair or string.",
    );
    ctx.par(256, |w, z| {
        let z = z as u8;
        let mut values: Vec<u64> = vec![0, 1, 9, 10, (1 << 56) - 1, (1 << 56) - 2, 1 << 56, (1 << 56) + 1, u64::MAX, 1 << 63, 1 << 57];
        for b in 0..64 {
            values.push(1 << b);
            values.push((1 << b) - 1);
            values.push(w.r.u64() >> b);
        }
        for _ in 0..ctx.quick_or(500, 20_000) {
            let b = w.r.below(64);
            values.push(w.r.u64() >> b);
        }
        for v in values {
            w.eval(&format!("{v}/{z}"));
            let what = format!("NationalNumber::new({v}, {z})");
            let Some(got) = w.op(&what, || {
                NationalNumber::new(v, z).ok().map(|n| (n.value(), n.zeros(), n.to_string()))
            }) else {
                return;
            };
            w.sample(|| json!({ "call": what, "got": format!("{got:?}") }));
            let fits = v < 1 << 56;
            w.count(if fits { "values that fit" } else { "values that do not fit" });
            let want = fits.then(|| (v, z, format!("{}{v}", "0".repeat(z as usize))));
            w.check(got == want, || {
                ("a national number does not keep its value and zeros".into(), json!({ "call": what, "got": format!("{got:?}"), "expected": format!("{want:?}") }))
            });
        }
    });
    ctx.par(64, |w, i| {
        for k in 0..ctx.quick_or(3000, 60_000) {
            let r = &mut w.r;
            let s = match r.below(8) {
                0 => {
                    let n = r.range(0, 400);
                    let m = r.range(0, 20);
                    format!("{}{}", "0".repeat(n), r.digits(m))
                }
                1 => format!("{}{}", r.pick(&["+", "-", " ", "+0", "0+", "0-", "00+", "\u{2212}"]), { let n = r.range(0, 8); r.digits(n) }),
                2 => garbage(r),
                3 => (0..r.range(1, 8)).map(|_| in_script(r.digit(), *r.pick(&ZEROS))).collect(),
                4 => format!("{}", (1u64 << 56).wrapping_add(r.range(0, 3) as u64).wrapping_sub(1)),
                5 => format!("{}{}", "0".repeat((i * 8 + k) % 520), r.range(1, 99)),
                _ => {
                    let n = r.range(0, 22);
                    r.digits(n)
                }
            };
            w.eval(&s);
            let what = format!("NationalNumber::from_str({s:?})");
            let Some(got) = w.op(&what, || s.parse::<NationalNumber>().ok().map(|n| (n.to_string(), n.value(), n.zeros()))) else { return };
            match got {
                None => {
                    w.count("refused strings");
                    // A string of the shape every parse produces must be read.
                    w.check(!(s.bytes().all(|b| b.is_ascii_digit()) && s.len() <= 17 && storable(&s)), || {
                        ("a national number is refused".into(), json!({ "call": what }))
                    });
                }
                Some((t, v, z)) => {
                    w.count("accepted strings");
                    w.check(t == s && t == format!("{}{v}", "0".repeat(z as usize)), || {
                        ("a national number read from a string does not print as that string".into(), json!({ "call": what, "prints": t, "value": v, "zeros": z }))
                    });
                }
            }
        }
    });
}

pub fn c23(ctx: &Ctx) {
    ctx.rule(
        "numbers from parsing and from all combinations of field values, in pairs that differ in at most one field, and \
         their JSON and postcard forms. Distinct by (number, number).",
    );
    let e = env();
    let pair = |w: &mut W, a: &PhoneNumber, b: &PhoneNumber| {
        let (x, y) = (num(a), num(b));
        w.eval(&format!("{x:?}{y:?}"));
        let same = (x.code, &x.nsn, &x.ext, &x.carrier) == (y.code, &y.nsn, &y.ext, &y.carrier);
        w.count(match (same, x.source == y.source) {
            (true, true) => "equal pairs",
            (true, false) => "equal pairs of different source",
            _ => "unequal pairs",
        });
        let Some((eq, qe, h)) = w.op("compare", || (a == b, b == a, hash_of(a) == hash_of(b))) else { return };
        let case = || json!({ "a": format!("{x:?}"), "b": format!("{y:?}") });
        w.check(eq == same && qe == same, || (format!("equality should be {same}"), case()));
        w.check(!same || h, || ("equal numbers hash differently".into(), case()));
        if let Some(Some((c, d))) = w.op("clone", || {
            let mut d = b.clone();
            d.clone_from(a);
            Some((a.clone(), d))
        }) {
            w.check(c == *a && d == *a && num(&c) == x && num(&d) == x && hash_of(&c) == hash_of(a), || {
                ("a clone is another number".into(), case())
            });
        }
        // The parts must agree with themselves too.
        w.check(!same || (hash_of(a.code()) == hash_of(b.code()) && a.code() == b.code() && a.national() == b.national()), || {
            ("the parts of equal numbers differ".into(), case())
        });
    };
    fn round(w: &mut W, p: &PhoneNumber) {
        let x = num(p);
        let js = serde_json::to_string(p).ok().and_then(|s| serde_json::from_str::<PhoneNumber>(&s).ok());
        let via = serde_json::to_value(p).ok().and_then(|s| serde_json::from_value::<PhoneNumber>(s).ok());
        let pc = postcard::to_stdvec(p).ok().and_then(|b| postcard::from_bytes::<PhoneNumber>(&b).ok());
        for (how, got) in [("JSON", js), ("a JSON value", via), ("postcard", pc)] {
            w.evals += 1;
            let Some(q) = got else {
                w.fail(format!("a number does not come back from {how}"), json!({ "number": format!("{x:?}") }));
                continue;
            };
            let y = num(&q);
            w.check(*p == q && x == y && hash_of(p) == hash_of(&q), || {
                (format!("a number changes on its way through {how}"), json!({ "before": format!("{x:?}"), "after": format!("{y:?}") }))
            });
            for (mode, m) in MODES {
                let a = w.op(&format!("format {mode} of {x:?}"), || print(p.format().mode(m)));
                let b = w.op(&format!("format {mode} of {y:?}"), || print(q.format().mode(m)));
                w.check(a == b, || {
                    (format!("a number prints differently after {how}"), json!({ "number": format!("{x:?}"), "mode": mode, "before": a, "after": b }))
                });
            }
            w.count("serialisation round trips");
        }
    }
    ctx.par(e.m.terrs.len(), |w, ti| {
        let t = &e.m.terrs[ti];
        let mut prev: Vec<PhoneNumber> = vec![];
        for _ in 0..ctx.quick_or(60, 1200) {
            if w.over() {
                return;
            }
            // One number dialled in several ways.
            let n = national(e, ti, &mut w.r);
            let h = own(t);
            let mut got = vec![];
            for s in [
                format!("+{}{n}", t.code),
                format!("00{}{n}", t.code),
                n.clone(),
                format!("{}{n}", t.code),
                format!("{}{n}", t.np.as_deref().unwrap_or("0")),
                format!("+{}{n};ext=12", t.code),
                format!("+{}{n} x12", t.code),
                text(e, ti, Some(ti), &mut w.r),
            ] {
                for h in [None, h] {
                    if let Some(Ok(p)) = w.op(&format!("parse({s:?})"), || phonenumber::parse(h.map(|h| h.1), &s)) {
                        got.push(p);
                    }
                }
            }
            for a in &got {
                for b in &got {
                    pair(w, a, b);
                }
            }
            if let Some(p) = got.first() {
                w.sample(|| json!({ "number": format!("{:?}", num(p)) }));
            }
            for p in got.iter().step_by(3) {
                round(w, p);
            }
            prev.extend(got.into_iter().take(1));
        }
        for a in &prev {
            for b in prev.iter().take(8) {
                pair(w, a, b);
            }
        }
    });
    // Numbers that differ in one field only.
    ctx.par(64, |w, _| {
        for _ in 0..ctx.quick_or(60, 1500) {
            let n = random_nsn(&mut w.r);
            let code = e.m.terrs[w.r.below(e.m.terrs.len())].code;
            let other = e.m.terrs[w.r.below(e.m.terrs.len())].code;
            let x = w.r.digits(3);
            let exts: [Option<&str>; 4] = [None, Some(&x), Some("0"), Some("00")];
            let m = near(&n, &mut w.r);
            // Any number of leading zeros.
            let (n, m) = if w.r.chance(1, 3) {
                let k = if w.r.chance(1, 2) { w.r.below(20) } else { w.r.below(248) };
                let d = w.r.digits(8);
                (format!("{}{d}", "0".repeat(k)), format!("{}{d}", "0".repeat(k + w.r.below(8))))
            } else {
                (n, m)
            };
            let mut all = vec![];
            for c in [code, other] {
                for s in [n.as_str(), m.as_str()] {
                    for x in exts {
                        for y in [None, Some("12"), Some("012")] {
                            let value = s.trim_start_matches('0');
                            if !value.is_empty() && value.len() < 17 && s.len() - value.len() < 256 {
                                all.extend(build(c, s, x, y));
                            }
                        }
                    }
                }
            }
            for a in &all {
                let b = w.r.pick(&all).clone();
                pair(w, a, &b);
                pair(w, a, a);
            }
            if let Some(a) = all.first() {
                let js = serde_json::to_value(a).unwrap();
                for src in ["plus", "idd", "number", "default"] {
                    let mut v = js.clone();
                    v["code"]["source"] = json!(src);
                    if let Ok(b) = serde_json::from_value::<PhoneNumber>(v) {
                        pair(w, a, &b);
                        round(w, &b);
                    }
                }
            }
            // Arbitrary serialised values too.
            if let Some(p) = serialised(&mut w.r, code) {
                round(w, &p);
            }
        }
    });
}
