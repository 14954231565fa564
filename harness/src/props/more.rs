//! Reasons for rejection, agreement of the equivalent ways to ask, the
//! shipped examples, and the cost of loading.

use super::meta::descriptors;
use super::multi::{cost_of, growth};
use super::num::{hash_of, print};
use super::parse::records;
use crate::gen::*;
use crate::model::*;
use crate::mon::{threads, Ctx, W};
use crate::rng::Rng;
use crate::util::*;
use crate::work::*;
use phonenumber::country::{self, Id};
use phonenumber::metadata::{loader, Database, DATABASE};
use phonenumber::{Carrier, Extension, Mode, ParseError, PhoneNumber, Type, Validation};
use serde_json::json;

fn reason(e: &ParseError) -> &'static str {
    match e {
        ParseError::NoNumber => "NoNumber",
        ParseError::InvalidCountryCode => "InvalidCountryCode",
        ParseError::TooShortAfterIdd => "TooShortAfterIdd",
        ParseError::TooShortNsn => "TooShortNsn",
        ParseError::TooLong => "TooLong",
        ParseError::MalformedInteger(_) => "MalformedInteger",
    }
}

pub fn c29(ctx: &Ctx) {
    ctx.rule(
        "texts that must be rejected, each for a reason the oracle knows (no viable number, no or an unknown calling \
         code, too few or too many digits), bundled and made-up plans, all kinds of hints; the error is compared with the \
         reasons that apply. Distinct by (hint, text).",
    );
    let e = env();
    fn one(w: &mut W, m: &Model, db: Option<&Database>, h: Option<(&str, Id)>, s: &str) {
        let why = match m.parse_why(h.map(|h| h.0), s) {
            Ok(_) => {
                w.count("texts that are numbers");
                return;
            }
            Err(why) => why,
        };
        let call = format!("parse({}, {s:?})", h.map_or("none", |h| h.0));
        w.eval(&call);
        let Some(got) = w.op(&call, || match db {
            None => phonenumber::parse(h.map(|h| h.1), s),
            Some(db) => phonenumber::parse_with(db, h.map(|h| h.1), s),
        }) else {
            return;
        };
        w.count(match why.first() {
            None => "rejected for a reason left open",
            Some(&"NoNumber") => "rejected: no number",
            Some(&"InvalidCountryCode") => "rejected: calling code",
            Some(&"TooLong") => "rejected: too long",
            _ => "rejected: too short",
        });
        w.sample(|| json!({ "call": call, "result": show(&got), "reasons": why }));
        let ok = match &got {
            Ok(_) => false,
            Err(e) => why.is_empty() || why.contains(&reason(e)),
        };
        w.check(ok, || {
            ("the error does not say what is wrong".into(), json!({ "call": call, "got": format!("{got:?}"), "reasons": why }))
        });
        if let Err(e) = got {
            w.check(!e.to_string().is_empty(), || ("the error has no text".into(), json!({ "call": call })));
        }
    }
    fn text_of(w: &mut W, code: u16) -> String {
        let r = &mut w.r;
        match r.below(8) {
            0 => garbage(r),
            1 => {
                // Too short.
                let n = r.range(0, 3);
                let start = r.pick(&["+", "00", "011", ""]).to_string();
                format!("{start}{code}{}", r.digits(n))
            }
            2 => {
                // Unknown codes.
                let (c, n) = (r.range(0, 1200), r.range(3, 14));
                format!("{}{c}{}", r.pick(&["+", "00", "\u{FF0B}", "+0", "+00"]), r.digits(n))
            }
            3 => {
                // Too long.
                let n = r.range(15, 40);
                let start = if r.chance(1, 2) { format!("+{code}") } else { String::new() };
                format!("{start}{}", r.digits(n))
            }
            4 => {
                // Values that do not fit.
                let top = (1u64 << 56) as i64 + r.range(0, 40) as i64 - 20;
                format!("+{code}{top}")
            }
            5 => {
                let n = r.range(0, 4);
                let d = r.digits(n);
                format!("{d}{}", r.pick(&["", "a", "ab12", "-", " x", "#", "é", "+", "*", "*1", " 1", "abc"]))
            }
            6 => {
                let n = r.range(4, 9);
                r.digits(n)
            }
            _ => {
                let n = r.range(0, 25);
                let z = r.range(0, 4);
                format!("+{code}{}{}", "0".repeat(z), r.digits(n))
            }
        }
    }
    ctx.par(e.m.terrs.len(), |w, ti| {
        for _ in 0..ctx.quick_or(2500, 40_000) {
            if w.over() {
                return;
            }
            let mut s = text_of(w, e.m.terrs[ti].code);
            if w.r.chance(1, 5) {
                s = text(e, ti, Some(ti), &mut w.r);
            } else if w.r.chance(1, 6) {
                s = punctuate(&s, &pure_separators(), &mut w.r);
            }
            let h = match w.r.below(3) {
                0 => None,
                1 => own(&e.m.terrs[ti]),
                _ => hint(&mut w.r),
            };
            one(w, e.m, None, h, &s);
        }
    });
    // Every start of three digits.
    ctx.par(1000, |w, c| {
        for tail in ["", "1", "12", "123", "5551234", "012345678", "00000000000000000000"] {
            for s in [format!("+{c}{tail}"), format!("+{c:03}{tail}"), format!("00{c}{tail}"), format!("{c}{tail}")] {
                one(w, e.m, None, None, &s);
                let h = hint(&mut w.r);
                one(w, e.m, None, h, &s);
            }
        }
    });
    ctx.par(ctx.quick_or(64, 900), |w, _| {
        let Some(p) = plan(w, 8) else { return };
        for _ in 0..400 {
            let ti = w.r.below(p.m().terrs.len());
            let s = if w.r.chance(1, 4) { text(&p.env, ti, Some(ti), &mut w.r) } else { text_of(w, p.m().terrs[ti].code) };
            let h = plan_hint(p.m(), &mut w.r);
            one(w, p.m(), Some(&p.db), h, &s);
        }
    });
}

pub const TYPES: [Type; 17] = [
    Type::FixedLine,
    Type::Mobile,
    Type::FixedLineOrMobile,
    Type::TollFree,
    Type::PremiumRate,
    Type::SharedCost,
    Type::PersonalNumber,
    Type::Voip,
    Type::Pager,
    Type::Uan,
    Type::Emergency,
    Type::Voicemail,
    Type::ShortCode,
    Type::StandardRate,
    Type::Carrier,
    Type::NoInternational,
    Type::Unknown,
];

/// All the ways to ask one thing about a number.
fn agree(w: &mut W, p: &PhoneNumber) {
    let n = num(p);
    let what = format!("{n:?}");
    let fail = |w: &mut W, about: &str, got: String| {
        w.fail(format!("two ways to get {about} disagree"), json!({ "number": what, "got": got }));
    };
    // Parts.
    let Some(parts) = w.op(&format!("parts of {what}"), || {
        let c = *p.code();
        let nat = *p.national();
        let zeros = nat.to_string().len() - nat.to_string().trim_start_matches('0').len();
        vec![
            ("the calling code", c.value() == u16::from(c) && c.value() == p.country().code() && p.country().value() == c.value()),
            ("the code source", p.country().source() == c.source()),
            ("the code", *p.country() == c),
            ("the national value", u64::from(nat) == nat.value()),
            ("the zeros", nat.value() == 0 || nat.zeros() as usize == zeros),
            (
                "the extension",
                p.extension().is_none_or(|x| {
                    let s = x.to_string();
                    **x == *s && x.as_ref() == s && Extension::from(s.as_str()) == *x && Extension::from(s.clone()) == *x
                }),
            ),
            (
                "the carrier",
                p.carrier().is_none_or(|x| {
                    let s = x.to_string();
                    **x == *s && x.as_ref() == s && Carrier::from(s.as_str()) == *x && Carrier::from(s.clone()) == *x
                }),
            ),
            ("a copy", p.clone() == *p && hash_of(&p.clone()) == hash_of(p)),
        ]
    }) else {
        return;
    };
    for (about, ok) in parts {
        if !ok {
            fail(w, about, String::new());
        }
    }
    // Formatting.
    for (mode, m) in MODES {
        let Some(texts) = w.op(&format!("format {mode} of {what}"), || {
            vec![
                print(p.format().mode(m)),
                print(phonenumber::format(p).mode(m)),
                print(p.format_with(&DATABASE).mode(m)),
                print(phonenumber::format_with(&DATABASE, p).mode(m)),
                print(p.format().database(&DATABASE).mode(m)),
                print(p.format().mode(m).database(&DATABASE)),
                print(p.format().mode(Mode::National).mode(Mode::Rfc3966).mode(m)),
                {
                    let f = p.format().mode(m);
                    let g = f;
                    let _ = print(g.mode(Mode::National));
                    print(f)
                },
            ]
        }) else {
            return;
        };
        w.evals += 1;
        if texts.iter().any(|t| *t != texts[0]) {
            fail(w, "the formatted text", format!("{mode}: {texts:?}"));
        }
        if m == Mode::E164 {
            let more = w.op(&format!("strings of {what}"), || {
                vec![print(p.format()), print(p.format_with(&DATABASE)), texts[0].as_ref().map(|_| p.to_string())]
            });
            if more.as_ref().is_some_and(|v| v.iter().any(|t| *t != texts[0])) {
                fail(w, "the plain text", format!("{more:?}"));
            }
        }
        // An explicit format, given at any point.
        if let Some(f) = DATABASE.by_code(&n.code).and_then(|v| v.into_iter().flat_map(|m| m.formats()).next()) {
            let texts = w.op(&format!("format {mode} of {what} with a format"), || {
                vec![
                    print(p.format().with(f).mode(m)),
                    print(p.format().mode(m).with(f)),
                    print(p.format_with(&DATABASE).with(f).mode(m)),
                    print(p.format().with(f).database(&DATABASE).mode(m)),
                    print(p.format().mode(m).database(&DATABASE).with(f)),
                ]
            });
            w.evals += 1;
            if texts.as_ref().is_some_and(|v| v.iter().any(|t| *t != v[0])) {
                fail(w, "the text in a given format", format!("{mode}: {texts:?}"));
            }
        }
    }
    // Validity, type and region.
    let Some((valid, kinds, region)) = w.op(&format!("questions about {what}"), || {
        (
            vec![p.is_valid(), p.is_valid_with(&DATABASE), phonenumber::is_valid(p), phonenumber::is_valid_with(&DATABASE, p)],
            vec![p.number_type(), p.number_type_with(&DATABASE)],
            (
                p.metadata(&DATABASE).map(|m| m.id().to_string()),
                p.country().id().ok().flatten().map(|i| i.as_ref().to_string()),
            ),
        )
    }) else {
        return;
    };
    if valid.iter().any(|v| *v != valid[0]) {
        fail(w, "validity", format!("{valid:?}"));
    }
    if kinds[0] != kinds[1] {
        fail(w, "the type", format!("{kinds:?}"));
    }
    if (kinds[0] != Type::Unknown) != valid[0] {
        fail(w, "validity and the type", format!("{valid:?} {kinds:?}"));
    }
    if region.0.clone().filter(|r| r != "001") != region.1 {
        fail(w, "the region", format!("{region:?}"));
    }
}

pub fn c30(ctx: &Ctx) {
    ctx.rule(
        "for texts and numbers of every territory: all the documented ways to ask the same thing, in all orders, compared \
         with each other (parse, parse_with and FromStr; the formatter made in any order of its settings; functions and \
         methods; conversions of the parts); and every region, type and description by each of its names. Distinct by \
         text or number.",
    );
    let e = env();
    ctx.par(e.m.terrs.len(), |w, ti| {
        for _ in 0..ctx.quick_or(250, 5000) {
            if w.over() {
                return;
            }
            let s = if w.r.chance(1, 8) { garbage(&mut w.r) } else { text(e, ti, Some(ti), &mut w.r) };
            let h = if w.r.chance(1, 2) { None } else { own(&e.m.terrs[ti]).map(|h| h.1) };
            w.eval(&format!("{h:?}/{s}"));
            let Some(all) = w.op(&format!("parse {s:?} in every way"), || {
                let mut v = vec![
                    phonenumber::parse(h, &s),
                    phonenumber::parse(h, s.as_str()),
                    phonenumber::parse(h, s.clone()),
                    phonenumber::parse_with(&DATABASE, h, &s),
                    phonenumber::parse_with(&DATABASE, h, s.clone()),
                ];
                if h.is_none() {
                    v.push(s.parse::<PhoneNumber>());
                }
                v
            }) else {
                return;
            };
            let shown: Vec<_> = all.iter().map(|p| format!("{p:?}")).collect();
            w.sample(|| json!({ "text": s, "result": shown[0] }));
            w.check(shown.iter().all(|x| *x == shown[0]), || {
                ("the ways to parse disagree".into(), json!({ "text": s, "hint": format!("{h:?}"), "got": shown }))
            });
            let viable = w.op(&format!("is_viable({s:?})"), || (phonenumber::is_viable(&s), phonenumber::is_viable(s.as_str())));
            w.check(viable.is_none_or(|v| v.0 == v.1), || ("the ways to test viability disagree".into(), json!(s)));
            if let Some(Ok(p)) = all.into_iter().next() {
                w.count("parsed numbers");
                agree(w, &p);
            }
            let n = national(e, ti, &mut w.r);
            let (x, c) = (w.r.digits(3), w.r.digits(2));
            if storable(&n) {
                // Now and then with a calling code no region has.
                let code = match w.r.below(6) {
                    0 => w.r.range(0, 1100) as u16,
                    1 => w.r.u64() as u16,
                    2 => *w.r.pick(&[0, 1, 255, 256, 999, 1000, 32767, 65535]),
                    _ => e.m.terrs[ti].code,
                };
                if let Some(p) = build(code, &n, w.r.chance(1, 2).then_some(&x), w.r.chance(1, 2).then_some(&c)) {
                    w.count("made numbers");
                    agree(w, &p);
                }
            }
        }
    });
    // Regions by name.
    ctx.par(26, |w, a| {
        for b in 0..26u8 {
            let s: String = [(b'A' + a as u8) as char, (b'A' + b) as char].iter().collect();
            w.eval(&s);
            let shipped = e.m.terrs.iter().any(|t| t.id == s);
            let Some(got) = w.op(&format!("region {s}"), || s.parse::<Id>().ok()) else { return };
            w.check(got.is_some() || !shipped, || ("a shipped region has no name".into(), json!(s)));
            let Some(i) = got else { continue };
            w.count("regions");
            let js = serde_json::to_string(&i).ok();
            let back = js.as_ref().and_then(|j| serde_json::from_str::<Id>(j).ok());
            let pc = postcard::to_stdvec(&i).ok().and_then(|b| postcard::from_bytes::<Id>(&b).ok());
            let t: Result<Id, _> = Id::try_from(s.as_str());
            w.check(
                i.as_ref() == s && format!("{i:?}") == s && back == Some(i) && pc == Some(i) && t == Ok(i),
                || ("a region does not keep its name".into(), json!({ "name": s, "as_ref": i.as_ref(), "json": js })),
            );
            w.check(DATABASE.by_id(i.as_ref()).is_none_or(|m| m.id() == s), || {
                ("a region is found under another name".into(), json!(s))
            });
        }
    });
    ctx.par(1, |w, _| {
        use country::*;
        let named = [
            ("US", US), ("GB", GB), ("DE", DE), ("FR", FR), ("IT", IT), ("RU", RU), ("CN", CN), ("BR", BR), ("AC", AC),
            ("ZW", ZW), ("KZ", KZ), ("CA", CA), ("AG", AG), ("AX", AX), ("TA", TA), ("XK", XK), ("SJ", SJ), ("VA", VA),
        ];
        for (s, i) in named {
            w.eval(s);
            w.check(s.parse() == Ok(i), || ("a region constant has another name".into(), json!(s)));
        }
        // Types survive serialisation, as different things.
        let mut seen = std::collections::BTreeSet::new();
        for t in TYPES {
            let js = serde_json::to_string(&t).unwrap_or_default();
            w.eval(&js);
            w.check(
                serde_json::from_str::<Type>(&js).ok() == Some(t)
                    && postcard::to_stdvec(&t).ok().and_then(|b| postcard::from_bytes::<Type>(&b).ok()) == Some(t)
                    && seen.insert(js.clone()),
                || ("a type does not survive serialisation".into(), json!({ "type": format!("{t:?}"), "json": js })),
            );
        }
        // The verdicts on a length are told apart.
        for v in [
            Validation::IsPossible,
            Validation::IsPossibleLocalOnly,
            Validation::InvalidCountryCode,
            Validation::TooShort,
            Validation::InvalidLength,
            Validation::TooLong,
        ] {
            let possible = matches!(v, Validation::IsPossible | Validation::IsPossibleLocalOnly);
            w.eval(&format!("{v:?}"));
            w.check(
                v.is_possible() == possible
                    && v.is_invalid() != possible
                    && v.is_invalid_length() == (!possible && v != Validation::InvalidCountryCode),
                || ("a verdict on a length contradicts itself".into(), json!(format!("{v:?}"))),
            );
        }
    });
    // Every description by its name and by its type, no two mixed up.
    ctx.par(64, |w, k| {
        let Some(base) = records().get(k * 3).cloned() else { return };
        let some = |i: usize| {
            (i == 0 || (k >> (i % 6)) & 1 == 0 || i % 6 == k % 6).then(|| loader::Descriptor {
                national_number: Some(format!("{i}\\d*")),
                possible_length: vec![i as u16 + 1, i as u16 + 3],
                possible_local_length: vec![],
                example: Some(format!("{i}")),
            })
        };
        let m = loader::Metadata {
            id: Some("DE".into()),
            country_code: Some(49),
            general: some(0),
            fixed_line: some(1),
            mobile: some(2),
            toll_free: some(3),
            premium_rate: some(4),
            shared_cost: some(5),
            personal_number: some(6),
            voip: some(7),
            pager: some(8),
            uan: some(9),
            emergency: some(10),
            voicemail: some(11),
            short_code: some(12),
            standard_rate: some(13),
            carrier: some(14),
            no_international: some(15),
            ..base
        };
        let Some(Ok(db)) = w.op("load records", || Database::from(vec![m])) else {
            w.count("records that did not load");
            return;
        };
        let Some(meta) = db.by_id("DE") else { return };
        let d = meta.descriptors();
        let all = [
            (Type::Unknown, Some(d.general())),
            (Type::FixedLine, d.fixed_line()),
            (Type::Mobile, d.mobile()),
            (Type::TollFree, d.toll_free()),
            (Type::PremiumRate, d.premium_rate()),
            (Type::SharedCost, d.shared_cost()),
            (Type::PersonalNumber, d.personal_number()),
            (Type::Voip, d.voip()),
            (Type::Pager, d.pager()),
            (Type::Uan, d.uan()),
            (Type::Emergency, d.emergency()),
            (Type::Voicemail, d.voicemail()),
            (Type::ShortCode, d.short_code()),
            (Type::StandardRate, d.standard_rate()),
            (Type::Carrier, d.carrier()),
            (Type::NoInternational, d.no_international()),
        ];
        for (i, (t, named)) in all.into_iter().enumerate() {
            w.eval(&format!("{k}/{t:?}"));
            let want = some(i).and_then(|x| x.example);
            let a = named.and_then(|x| x.example()).map(str::to_string);
            let b = d.get(t).and_then(|x| x.example()).map(str::to_string);
            let lens = named.is_none_or(|x| x.possible_length() == [i as u16 + 1, i as u16 + 3]);
            w.count("descriptions by name and type");
            w.check(a == want && b == want && lens, || {
                (
                    "a description is not found under its name or type".into(),
                    json!({ "type": format!("{t:?}"), "by name": a, "by type": b, "expected": want }),
                )
            });
        }
    });
}

pub fn c31(ctx: &Ctx) {
    ctx.rule(
        "every example number of every description of every territory in the shipped metadata (exhaustive), also with the \
         example the library reports: it must be valid, of the type of its description, of its region, parse in its \
         region from the bare, national and international forms, and survive every output format; where the metadata \
         itself says otherwise the oracle's reading is expected instead, and that is counted. Distinct by (territory, \
         type, example).",
    );
    let e = env();
    ctx.par(e.m.terrs.len(), |w, ti| {
        let t = &e.m.terrs[ti];
        let meta = if t.id == "001" {
            DATABASE.by_code(&t.code).and_then(|v| v.into_iter().next())
        } else {
            DATABASE.by_id(&t.id)
        };
        let Some(meta) = meta else {
            w.fail("a territory is missing".into(), json!(t.id));
            return;
        };
        let h = own(t);
        for (k, got) in descriptors(meta) {
            let want = t.desc(k).and_then(|d| d.example.clone());
            let reported = got.and_then(|d| d.example()).map(str::to_string);
            w.check(want == reported, || {
                ("an example is not the shipped one".into(), json!({ "territory": t.id, "kind": format!("{k:?}"), "got": reported, "expected": want }))
            });
            let Some(x) = want else { continue };
            w.eval(&format!("{}{}/{k:?}/{x}", t.id, t.code));
            if !storable(&x) {
                continue;
            }
            let case = |got: String| json!({ "territory": t.id, "code": t.code, "kind": format!("{k:?}"), "example": x, "got": got });
            // What the metadata says of its own example.
            let kind = e.m.kind(t.code, &x);
            let region = e.m.region(t.code, &x).map(|r| r.id.as_str());
            let typed = match k {
                Kind::General | Kind::NoInternational | Kind::Emergency => true,
                Kind::FixedLine | Kind::Mobile => kind == "FixedLineOrMobile" || kind == format!("{k:?}"),
                _ => kind == format!("{k:?}"),
            };
            if kind == "Unknown" || region != Some(&t.id) || !typed {
                w.count("examples the metadata itself gives another region or type");
            } else {
                w.count("examples of their own region and type");
            }
            let d = got.unwrap();
            w.check(d.is_match(&x) == t.desc(k).unwrap().fits(&x), || {
                ("an example and its description disagree".into(), case(String::new()))
            });
            let Some(p) = number(t.code, &x) else {
                w.fail("an example cannot be a number".into(), case(String::new()));
                continue;
            };
            let Some(got) = w.op(&format!("questions about +{} {x}", t.code), || {
                (p.is_valid(), format!("{:?}", p.number_type()), p.metadata(&DATABASE).map(|m| (m.id().to_string(), m.country_code())))
            }) else {
                return;
            };
            let expected = (kind != "Unknown", kind.to_string(), region.map(|r| (r.to_string(), t.code)));
            w.check(got == expected, || {
                ("an example is not valid, of its type and in its region".into(), {
                    let mut c = case(format!("{got:?}"));
                    c["expected"] = json!(format!("{expected:?}"));
                    c
                })
            });
            let mut forms = vec![
                (None, format!("+{}{x}", t.code)),
                (h, format!("+{}{x}", t.code)),
                (h, x.clone()),
                (None, format!("00{}{x}", t.code)),
            ];
            if let Some(np) = &t.np {
                forms.push((h, format!("{np}{x}")));
            }
            if let Some(i) = &t.pref_idd {
                forms.push((h, format!("{i}{}{x}", t.code)));
            }
            for (mode, m) in MODES {
                if let Some(Some(s)) = w.op(&format!("format {mode} of +{} {x}", t.code), || print(p.format().mode(m))) {
                    forms.push((if mode == "National" { h } else { None }, s));
                }
            }
            for (h, s) in forms {
                if let Some(Ok(_)) = same(w, e.m, None, h, &s) {
                    w.count("forms read back");
                }
                w.evals += 1;
            }
            for (mode, m) in MODES {
                let a = w.op(&format!("format {mode} of +{} {x}", t.code), || print(p.format().mode(m))).flatten();
                let n = Num { code: t.code, nsn: x.clone(), ext: None, carrier: None, source: "" };
                let b = e.m.format(&n, mode);
                w.check(a == b, || {
                    (format!("the {mode} text of an example is not what the metadata gives"), case(format!("{a:?}, expected {b:?}")))
                });
            }
            w.sample(|| json!({ "territory": t.id, "kind": format!("{k:?}"), "example": x, "type": kind }));
        }
    });
}

/// Families of growing documents: the head, the part that repeats (with `#`
/// for its number), the tail.
const DOCS: [(&str, &str, &str, &str); 19] = [
    ("territories", "", "<territory id=\"A#\" countryCode=\"%\"><generalDesc><nationalNumberPattern>\\d{9}</nationalNumberPattern></generalDesc></territory>", ""),
    ("territories of one code", "", "<territory id=\"A#\" countryCode=\"7\"><generalDesc><nationalNumberPattern>\\d{9}</nationalNumberPattern></generalDesc></territory>", ""),
    ("territories of one name", "", "<territory id=\"001\" countryCode=\"%\"><generalDesc><nationalNumberPattern>\\d{9}</nationalNumberPattern></generalDesc></territory>", ""),
    ("formats", "(<availableFormats>", "<numberFormat pattern=\"(\\d)(\\d)\"><format>$1 $2</format></numberFormat>", "</availableFormats>)"),
    ("international formats", "(<availableFormats>", "<numberFormat pattern=\"(\\d)\"><format>$1</format><intlFormat>$1</intlFormat></numberFormat>", "</availableFormats>)"),
    ("leading digits", "(<availableFormats><numberFormat pattern=\"(\\d)\"><format>$1</format>", "<leadingDigits>1</leadingDigits>", "</numberFormat></availableFormats>)"),
    ("comments", "(", "<!-- a comment -->", ")"),
    ("one comment", "(<!--", " words ", "-->)"),
    ("white space", "(", " \n\t  ", ")"),
    ("references", "(<references>", "<sourceUrl>http://example.com</sourceUrl>", "</references>)"),
    ("nesting", "(<references>", "<a>", ""),
    ("descriptions", "(", "<mobile><nationalNumberPattern>1</nationalNumberPattern></mobile>", ")"),
    ("an example", "(<mobile><nationalNumberPattern>1</nationalNumberPattern><exampleNumber>", "12345", "</exampleNumber></mobile>)"),
    ("length lists", "(<mobile><possibleLengths national=\"4", ",5", "\"/><nationalNumberPattern>1</nationalNumberPattern></mobile>)"),
    ("a format", "(<availableFormats><numberFormat pattern=\"(\\d)\"><format>$1", " -", "</format></numberFormat></availableFormats>)"),
    ("unknown parts", "", "<other/>", ""),
    ("leading digits of their own", "(<availableFormats><numberFormat pattern=\"(\\d)\"><format>$1</format>", "<leadingDigits>#</leadingDigits>", "</numberFormat></availableFormats>)"),
    ("patterns of their own", "", "<territory id=\"A#\" countryCode=\"%\"><generalDesc><nationalNumberPattern>#</nationalNumberPattern></generalDesc></territory>", ""),
    ("names and codes of their own", "", "<territory id=\"A#\" countryCode=\"%\" nationalPrefix=\"#\" mainCountryForCode=\"true\"><generalDesc><nationalNumberPattern>1</nationalNumberPattern></generalDesc></territory>", ""),
];

fn growing(i: usize, bytes: usize) -> String {
    let (_, a, b, z) = DOCS[i];
    let inner = |s: &str| {
        s.replace('(', "<territory id=\"A\" countryCode=\"7\"><generalDesc><nationalNumberPattern>\\d{9}</nationalNumberPattern></generalDesc>")
    };
    // Only the parentheses at the ends stand for the territory.
    let (a, z) = (
        a.strip_prefix('(').map_or(a.to_string(), |r| inner("(") + r),
        z.strip_suffix(')').map_or(z.to_string(), |r| r.to_string() + "</territory>"),
    );
    let n = bytes / b.len();
    let mut s = String::with_capacity(bytes * 2);
    s.push_str("<phoneNumberMetadata><territories>");
    s.push_str(&a);
    for k in 0..n {
        if b.contains('#') || b.contains('%') {
            s.push_str(&b.replace('#', &format!("{k:07}")).replace('%', &format!("{}", 1 + k % 60_000)));
        } else {
            s.push_str(b);
        }
    }
    s.push_str(&z);
    s.push_str("</territories></phoneNumberMetadata>");
    s
}

/// A family of documents made up at random: up to three places in which they
/// grow, one beside or inside another.
#[derive(Debug)]
struct GrowDoc {
    spots: Vec<(u8, u8)>,
    code_of_many: bool,
    main: bool,
}

impl GrowDoc {
    fn new(r: &mut Rng) -> GrowDoc {
        GrowDoc {
            spots: (0..r.range(1, 3)).map(|_| (r.below(16) as u8, r.below(4) as u8)).collect(),
            code_of_many: r.chance(1, 2),
            main: r.chance(1, 3),
        }
    }
    fn text(&self, bytes: usize) -> String {
        let share = bytes / self.spots.len();
        let many = |piece: &str| piece.repeat(share / piece.len() + 1);
        let format = "<numberFormat pattern=\"(\\d)(\\d)\"><format>$1 $2</format></numberFormat>";
        let (mut top, mut attrs, mut inside, mut formats, mut leading, mut mobile, mut example, mut others) =
            (String::new(), vec![], String::new(), String::new(), String::new(), String::new(), String::new(), String::new());
        let mut lens = String::from("4");
        for &(kind, v) in &self.spots {
            match kind {
                0 => attrs.push((["nationalPrefix", "preferredExtnPrefix", "preferredInternationalPrefix", "nationalPrefixTransformRule"][v as usize], many(["0", " x", "8~10", "$1"][v as usize]))),
                1 => inside += &many("<!-- a comment -->"),
                2 => inside += &format!("<!--{}-->", many(["- ", "<a>", " ", "&"][v as usize])),
                3 => inside += &many(&format!("<availableFormats>{}</availableFormats>", if v % 2 == 0 { format } else { "" })),
                4 => formats += &many(format),
                5 => formats += &many("<!-- -->"),
                6 => leading += &many(["<leadingDigits>1</leadingDigits>", "<leadingDigits>[1-3]</leadingDigits>", "<leadingDigits>1</leadingDigits> ", "\n"][v as usize]),
                7 => lens += &many([",5", ",[4-6]", ", 7", ",5,6"][v as usize]),
                8 => mobile += &many("\n "),
                9 => example += &many(["1", "12 ", "\u{E9}", "00000"][v as usize]),
                10 => inside += &many(["<mobile><nationalNumberPattern>1</nationalNumberPattern></mobile>", "<voip><nationalNumberPattern>1</nationalNumberPattern><possibleLengths national=\"5\"/></voip>", "<pager><nationalNumberPattern>1</nationalNumberPattern></pager>", "<emergency><nationalNumberPattern>1</nationalNumberPattern></emergency>"][v as usize]),
                11 => inside += &format!("<references>{}</references>", many(["<sourceUrl>a</sourceUrl>", "<sourceUrl/>", "<a b=\"c\"/>", "<a><b>c</b></a>"][v as usize])),
                12 => {
                    let n = share / 7;
                    inside += &format!("<references>{}{}</references>", "<a>".repeat(n), "</a>".repeat(n));
                }
                13 => top += &format!("<!-- {} -->", many("words ")),
                14 => top += &many(["\n", "  ", "<!-- -->", "<?a b?>"][v as usize]),
                _ => {
                    let one = |k: usize| {
                        format!(
                            "<territory id=\"{}\" countryCode=\"{}\"{}><generalDesc><nationalNumberPattern>1</nationalNumberPattern></generalDesc></territory>",
                            if v % 2 == 0 { format!("A{k:06}") } else { "AC".into() },
                            if self.code_of_many { 44 } else { k % 60_000 },
                            if self.main { " mainCountryForCode=\"true\"" } else { "" }
                        )
                    };
                    let mut k = 0;
                    let start = others.len();
                    while others.len() < start + share {
                        others += &one(k);
                        k += 1;
                    }
                }
            }
        }
        // Every attribute once.
        let mut seen = std::collections::HashSet::new();
        let attrs: String = attrs.into_iter().filter(|a| seen.insert(a.0)).map(|(k, v)| format!(" {k}=\"{v}\"")).collect();
        format!(
            "{top}<phoneNumberMetadata><territories><territory id=\"AD\" countryCode=\"376\"{attrs}>\
             <generalDesc><nationalNumberPattern>\\d+</nationalNumberPattern></generalDesc>{inside}\
             <availableFormats>{formats}<numberFormat pattern=\"(\\d)\">{leading}<format>$1</format></numberFormat></availableFormats>\
             <mobile>{mobile}<possibleLengths national=\"{lens}\"/><exampleNumber>{example}</exampleNumber><nationalNumberPattern>1</nationalNumberPattern></mobile>\
             </territory>{others}</territories></phoneNumberMetadata>"
        )
    }
}

pub fn c32(ctx: &Ctx) {
    ctx.rule(
        "families of growing metadata documents: fixed ones (many territories, formats, comments, long texts, deep nesting) \
         and ones made up at random that grow in up to three places at once, read into records and loaded as a database; the \
         CPU time (least of several runs) and the bytes allocated for a document four times as long may be at most ten and \
         nine times as much (a step counts as over ten only behind one over six). Distinct by (family, way of loading, size).",
    );
    let top = ctx.quick_or(1 << 19, 1 << 23);
    let cost = |w: &mut W, op: usize, what: &str, s: &str, runs: usize| {
        cost_of(w, runs, what, &mut || {
            if op == 0 {
                std::hint::black_box(Database::parse(s).is_ok());
            } else {
                std::hint::black_box(phonenumber::metadata::loader::load(s.as_bytes()).is_ok());
            }
        })
    };
    const HOW: [&str; 2] = ["a database", "records"];
    ctx.par_threads(DOCS.len() * 2, threads().min(4), |w, i| {
        let (i, op) = (i / 2, i % 2);
        let name = DOCS[i].0;
        growth(w, &format!("{name}/{op}"), &|| json!([name, HOW[op]]), (1 << 13, if op == 1 { top } else if name.contains("digits of their") { 1 << 21 } else { 1 << 19 }), |w, bytes, runs| {
            let s = growing(i, bytes);
            cost(w, op, &format!("load {bytes} bytes of {name} as {}", HOW[op]), &s, runs)
        });
    });
    ctx.par_threads(ctx.quick_or(240, 3000), threads().min(4), |w, i| {
        let g = GrowDoc::new(&mut w.r);
        let op = i % 2;
        if i < 64 {
            let ok = w.op("load a grown document", || phonenumber::metadata::loader::load(g.text(1 << 12).as_bytes()).is_ok());
            w.count(if ok == Some(true) { "made-up documents that load" } else { "made-up documents that do not load" });
        }
        // Records are cheap to read, so that longer documents can be; a
        // compiled expression takes a hundred times the bytes of its text.
        let limit = if op == 0 { 1 << 17 } else { top };
        growth(w, &format!("{g:?}/{op}"), &|| json!([format!("{g:?}"), HOW[op]]), (1 << 13, limit), |w, bytes, runs| {
            let s = g.text(bytes);
            cost(w, op, &format!("load {bytes} bytes of {g:?} as {}", HOW[op]), &s, runs)
        });
    });
}
