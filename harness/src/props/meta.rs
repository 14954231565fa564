//! Metadata: the bundled database, lookups, loading and its failures.

use super::parse::{records, weird};
use crate::gen::*;
use crate::model::*;
use crate::mon::{guarded, Ctx, W};
use crate::rng::Rng;
use crate::util::*;
use phonenumber::metadata::{loader, Database, Descriptor, Format, DATABASE};
use phonenumber::{Metadata, Type};
use regex::Regex;
use serde_json::{json, Value};
use std::io::{self, BufRead, Cursor, Read};

pub fn descriptors(m: &Metadata) -> Vec<(Kind, Option<&Descriptor>)> {
    let d = m.descriptors();
    use Kind::*;
    vec![
        (General, Some(d.general())),
        (NoInternational, d.no_international()),
        (FixedLine, d.fixed_line()),
        (Mobile, d.mobile()),
        (Pager, d.pager()),
        (TollFree, d.toll_free()),
        (PremiumRate, d.premium_rate()),
        (SharedCost, d.shared_cost()),
        (PersonalNumber, d.personal_number()),
        (Voip, d.voip()),
        (Uan, d.uan()),
        (Voicemail, d.voicemail()),
        (Emergency, d.emergency()),
    ]
}

fn by_type(k: Kind) -> Type {
    match k {
        Kind::General => Type::Unknown,
        Kind::NoInternational => Type::NoInternational,
        Kind::FixedLine => Type::FixedLine,
        Kind::Mobile => Type::Mobile,
        Kind::Pager => Type::Pager,
        Kind::TollFree => Type::TollFree,
        Kind::PremiumRate => Type::PremiumRate,
        Kind::SharedCost => Type::SharedCost,
        Kind::PersonalNumber => Type::PersonalNumber,
        Kind::Voip => Type::Voip,
        Kind::Uan => Type::Uan,
        Kind::Voicemail => Type::Voicemail,
        Kind::Emergency => Type::Emergency,
    }
}

/// Compare what two patterns mean, on samples of both and strings near them.
/// `whole`: only matches of the entire string matter.
fn same_pattern(w: &mut W, got: &Regex, want: &Rx, whole: bool, reps: usize) -> Result<(), Value> {
    let bare = want.bare();
    let a = hir(want);
    // The other direction, where the library's text can be read at all.
    let b = regex_syntax::ParserBuilder::new().ignore_whitespace(true).build().parse(got.as_str()).ok();
    for i in 0..reps {
        let s = if i % 2 == 0 { Some(from_pattern(&a, &mut w.r)) } else { b.as_ref().map(|b| from_pattern(b, &mut w.r)) };
        let Some(s) = s else { continue };
        let mut cases = vec![s.clone()];
        if !s.is_empty() {
            cases.push(near(&s, &mut w.r));
            cases.push(format!("{s}{}", w.r.digit()));
            cases.push(format!("{}{s}", w.r.digit()));
            cases.push(s[..s.len() - 1].to_string());
        }
        for c in cases {
            w.evals += 1;
            let ok = if whole {
                let m = got.find(&c);
                m.is_some_and(|m| m.start() == 0 && m.end() == c.len()) == want.full(&c)
            } else {
                let g = got.captures(&c).filter(|x| x.get(0).unwrap().start() == 0);
                let t = want.captures(&c);
                match (g, t) {
                    (None, None) => true,
                    (Some(g), Some((end, groups))) => {
                        g.get(0).unwrap().end() == end
                            && g.len() == groups.len()
                            && g.iter().zip(&groups).all(|(x, y)| x.map(|x| x.as_str()) == y.as_deref())
                    }
                    _ => false,
                }
            };
            if !ok {
                return Err(json!({ "pattern": bare, "loaded as": got.as_str(), "text": c }));
            }
        }
    }
    Ok(())
}

fn compare_format(w: &mut W, got: &Format, want: &Fmt, reps: usize) -> Result<(), Value> {
    let eq = |n: &str, a: String, b: String| if a == b { Ok(()) } else { Err(json!({ "attribute": n, "got": a, "expected": b })) };
    eq("format", got.format().into(), want.format.clone())?;
    eq("nationalPrefixFormattingRule", format!("{:?}", got.national_prefix()), format!("{:?}", want.np_rule))?;
    eq("carrierCodeFormattingRule", format!("{:?}", got.domestic_carrier()), format!("{:?}", want.carrier))?;
    eq("nationalPrefixOptionalWhenFormatting", got.is_national_prefix_optional().to_string(), want.np_opt.to_string())?;
    eq("number of leadingDigits", got.leading_digits().len().to_string(), want.leading.len().to_string())?;
    same_pattern(w, got.pattern(), &want.pattern, true, reps)?;
    for (g, l) in got.leading_digits().iter().zip(&want.leading) {
        same_pattern(w, g, l, false, reps)?;
    }
    Ok(())
}

/// Compare a loaded entry with the territory of the document.
pub fn compare(w: &mut W, got: &Metadata, t: &Terr, reps: usize) -> Result<(), Value> {
    let at = |n: &str, e: Value| json!({ "in": n, "difference": e });
    let eq = |n: &str, a: String, b: String| if a == b { Ok(()) } else { Err(json!({ "attribute": n, "got": a, "expected": b })) };
    let o = |x: Option<&str>| format!("{x:?}");
    eq("id", got.id().into(), t.id.clone())?;
    eq("countryCode", got.country_code().to_string(), t.code.to_string())?;
    eq("preferredInternationalPrefix", o(got.preferred_international_prefix()), o(t.pref_idd.as_deref()))?;
    eq("nationalPrefix", o(got.national_prefix()), o(t.np.as_deref()))?;
    eq("preferredExtnPrefix", o(got.preferred_extension_prefix()), o(t.pref_ext.as_deref()))?;
    eq("nationalPrefixTransformRule", o(got.national_prefix_transform_rule()), o(t.np_transform.as_deref()))?;
    eq("mainCountryForCode", got.is_main_country_for_code().to_string(), t.main.to_string())?;
    eq("mobileNumberPortableRegion", got.is_mobile_number_portable().to_string(), t.mnp.to_string())?;
    for (n, g, x) in [
        ("internationalPrefix", got.international_prefix(), &t.idd),
        ("nationalPrefixForParsing", got.national_prefix_for_parsing(), &t.np_parse),
        ("leadingDigits", got.leading_digits(), &t.leading),
    ] {
        match (g, x) {
            (None, None) => (),
            (Some(g), Some(x)) => same_pattern(w, g, x, false, reps).map_err(|e| at(n, e))?,
            (g, _) => return Err(at(n, json!({ "loaded": g.is_some(), "in the document": x.is_some() }))),
        }
    }
    for (n, g, x) in [("formats", got.formats(), &t.fmts), ("international formats", got.international_formats(), &t.intl)] {
        eq(n, g.len().to_string(), x.len().to_string())?;
        for (i, (g, x)) in g.iter().zip(x).enumerate() {
            compare_format(w, g, x, reps).map_err(|e| at(&format!("{n} {i}"), e))?;
            w.count("formats compared");
        }
    }
    for (k, g) in descriptors(got) {
        let n = KINDS.iter().find(|x| x.0 == k).unwrap().1;
        let x = t.desc(k);
        eq(n, g.is_some().to_string(), x.is_some().to_string())?;
        let same = got.descriptors().get(by_type(k)).map(descriptor_face) == g.map(descriptor_face);
        if !same {
            return Err(at(n, json!("Descriptors::get returns another description")));
        }
        if let (Some(g), Some(x)) = (g, x) {
            eq(&format!("{n} example"), o(g.example()), o(x.example.as_deref()))?;
            eq(&format!("{n} possible lengths"), format!("{:?}", g.possible_length()), format!("{:?}", x.lens))?;
            eq(&format!("{n} local lengths"), format!("{:?}", g.possible_local_length()), format!("{:?}", x.local))?;
            same_pattern(w, g.national_number(), &x.pattern, true, reps).map_err(|e| at(n, e))?;
            w.count("descriptions compared");
        }
    }
    let d = got.descriptors();
    for (n, g) in [("shortCode", d.short_code()), ("standardRate", d.standard_rate()), ("carrier", d.carrier())] {
        eq(n, g.is_some().to_string(), "false".into())?;
    }
    Ok(())
}

/// The entry of a database for a territory, by the way that identifies it.
fn entry<'d>(db: &'d Database, t: &Terr) -> Option<&'d Metadata> {
    if t.id == "001" {
        db.by_code(&t.code).and_then(|v| v.into_iter().find(|m| m.id() == t.id))
    } else {
        db.by_id(t.id.as_str())
    }
}

pub fn c05(ctx: &Ctx) {
    ctx.rule(
        "every territory of the shipped XML, every attribute; patterns are compared by what they match (sampled from \
         both sides, and near misses). Evaluations are pattern comparisons and territories; distinct by territory.",
    );
    let m = bundled();
    ctx.par(m.terrs.len(), |w, i| {
        let t = &m.terrs[i];
        w.eval(&format!("{}/{}", t.id, t.code));
        let Some(got) = entry(&DATABASE, t) else {
            w.fail("a territory is missing from the bundled database".into(), json!([t.id, t.code]));
            return;
        };
        w.sample(|| json!({ "id": t.id, "countryCode": t.code, "formats": t.fmts.len(), "types": t.types().count() }));
        let reps = ctx.quick_or(80, 3000);
        match guarded(|| ()).and(Ok(compare(w, got, t, reps))) {
            Err(e) | Ok(Err(Value::String(e))) => w.fail(e, json!([t.id, t.code])),
            Ok(Err(e)) => w.fail("the bundled database differs from the XML".into(), json!({ "territory": [json!(t.id), json!(t.code)], "difference": e })),
            Ok(Ok(())) => w.count("territories compared"),
        }
    });
    ctx.par(1, |w, _| {
        let n = DATABASE.iter().count();
        w.evals += 1;
        w.check(n == m.terrs.len(), || {
            ("the bundled database has another number of entries".into(), json!({ "got": n, "expected": m.terrs.len() }))
        });
        for c in 0..=u16::MAX {
            let (a, b) = (DATABASE.by_code(&c).map_or(0, |v| v.len()), m.by_code.get(&c).map_or(0, |v| v.len()));
            w.evals += 1;
            w.check(a == b, || ("entries of a calling code".into(), json!({ "code": c, "got": a, "expected": b })));
        }
    });
}

/// All that can be seen of a description.
fn descriptor_face(d: &Descriptor) -> String {
    format!("{:?}", (d.national_number().as_str(), d.possible_length(), d.possible_local_length(), d.example()))
}

/// All that can be seen of an entry.
fn face(m: &Metadata) -> String {
    let rx = |r: Option<&Regex>| r.map(|r| r.as_str().to_string());
    let fmts = |v: &[Format]| {
        v.iter()
            .map(|f| {
                let l: Vec<&str> = f.leading_digits().iter().map(|r| r.as_str()).collect();
                format!("{:?}", (f.pattern().as_str(), f.format(), l, f.national_prefix(), f.is_national_prefix_optional(), f.domestic_carrier()))
            })
            .collect::<Vec<_>>()
    };
    let x = m.descriptors();
    let more = [x.short_code(), x.standard_rate(), x.carrier()];
    let d: Vec<_> = descriptors(m).into_iter().map(|x| x.1).chain(more).map(|d| d.map(descriptor_face)).collect();
    format!(
        "{:?}",
        (
            (m.id(), m.country_code(), m.is_main_country_for_code(), m.is_mobile_number_portable(), m.national_prefix()),
            (m.preferred_international_prefix(), m.preferred_extension_prefix(), m.national_prefix_transform_rule()),
            (rx(m.international_prefix()), rx(m.national_prefix_for_parsing()), rx(m.leading_digits())),
            (fmts(m.formats()), fmts(m.international_formats()), d),
        )
    )
}

/// Every lookup of a database against the list of its territories.
fn lookups(w: &mut W, db: &Database, m: Option<&Model>, show: &str) {
    let case = |x: Value| json!({ "database": show, "at": x });
    let all: Vec<&Metadata> = db.iter().collect();
    w.eval(show);
    if let Some(m) = m {
        let mut got: Vec<(String, u16)> = all.iter().map(|m| (m.id().to_string(), m.country_code())).collect();
        let mut want: Vec<(String, u16)> = m.terrs.iter().map(|t| (t.id.clone(), t.code)).collect();
        got.sort();
        want.sort();
        w.check(got == want, || {
            ("iteration does not yield every entry once".into(), case(json!({ "got": got.len(), "expected": want.len() })))
        });
    }
    let mut faces: Vec<String> = all.iter().map(|m| face(m)).collect();
    for (e, f) in all.iter().zip(&faces) {
        w.evals += 1;
        w.count("entries looked up");
        let list = db.by_code(&e.country_code()).unwrap_or_default();
        w.check(list.iter().any(|x| face(x) == *f), || {
            ("an entry is not listed under its calling code".into(), case(json!([e.id(), e.country_code()])))
        });
    }
    // What a region or a code leads to is what iteration yields, as often.
    let mut codes: Vec<u16> = all.iter().map(|m| m.country_code()).chain(0..=1100).collect();
    codes.sort();
    codes.dedup();
    let mut listed: Vec<String> = codes.iter().flat_map(|c| db.by_code(c).unwrap_or_default()).map(face).collect();
    let mut names: Vec<&str> = all.iter().map(|m| m.id()).collect();
    names.sort();
    names.dedup();
    for n in names {
        let got = db.by_id(n).map(|e| (e.id().to_string(), face(e)));
        w.check(got.as_ref().is_some_and(|(i, f)| i == n && faces.contains(f)), || {
            ("a region does not lead to one of the entries of that name".into(), case(json!({ "region": n, "found": got.is_some() })))
        });
        w.count("regions looked up");
    }
    faces.sort();
    listed.sort();
    w.check(faces == listed, || {
        ("the entries listed by code are not those iteration yields".into(), case(json!({ "iterated": faces.len(), "listed": listed.len() })))
    });
    for code in 0..=1100u16 {
        let (list, names) = (db.by_code(&code), db.region(&code));
        let a = list.as_ref().map(|l| l.iter().map(|m| m.id()).collect::<Vec<_>>());
        w.check(a == names, || {
            ("the regions of a code are not those of its entries".into(), case(json!({ "code": code, "entries": a, "regions": names })))
        });
        if let Some(m) = m {
            let want = m.by_code.get(&code).map(|l| l.iter().map(|&i| m.terrs[i].id.as_str()).collect::<Vec<_>>());
            w.check(a == want, || {
                ("the entries of a code, main region first".into(), case(json!({ "code": code, "got": a, "expected": want })))
            });
        }
        for e in list.iter().flatten() {
            w.check(e.country_code() == code, || ("an entry is listed under another code".into(), case(json!([e.id(), code]))));
        }
        if let Some(l) = &list {
            let main = l.iter().position(|e| e.is_main_country_for_code());
            w.check(main.is_none_or(|p| p == 0), || ("the main region does not come first".into(), case(json!({ "code": code, "regions": a }))));
        }
    }
    for a in 'A'..='Z' {
        for b in 'A'..='Z' {
            let n: String = [a, b].iter().collect();
            let got = db.by_id(n.as_str());
            w.check(got.is_some() == all.iter().any(|e| e.id() == n) && got.is_none_or(|g| g.id() == n), || {
                ("a lookup by region".into(), case(json!({ "region": n, "found": got.is_some() })))
            });
        }
    }
}

pub fn c06(ctx: &Ctx) {
    ctx.rule(
        "the bundled database and made-up ones (shared codes, any document order, main regions anywhere): every index \
         over all regions AA-ZZ and codes 0-1100 against iteration and the document. Distinct by database.",
    );
    ctx.par(1, |w, _| lookups(w, &DATABASE, Some(bundled()), "bundled"));
    ctx.par(1, |w, _| lookups(w, &DATABASE.clone(), Some(bundled()), "a clone of the bundled one"));
    ctx.par(ctx.quick_or(120, 2500), |w, i| {
        let mut m = custom(bundled(), &mut w.r, 24);
        if i % 3 == 0 {
            // All territories of one shared code, main region in any place.
            let code = *w.r.pick(&[1u16, 7, 44, 61, 262]);
            let mut t: Vec<Terr> = bundled().terrs.iter().filter(|t| t.code == code).cloned().collect();
            w.r.shuffle(&mut t);
            m = Model::new(t);
        }
        if i % 8 == 1 {
            // Very many territories of one code.
            let n = w.r.range(20, 120);
            let code = w.r.range(1, 999) as u16;
            let main = w.r.below(2 * n);
            let mut ids: Vec<String> = ('A'..='Z').flat_map(|a| ('A'..='Z').map(move |b| format!("{a}{b}"))).collect();
            w.r.shuffle(&mut ids);
            let mut t: Vec<Terr> = (0..n).map(|_| w.r.pick(&bundled().terrs).clone()).collect();
            for (k, t) in t.iter_mut().enumerate() {
                t.code = code;
                t.id = ids[k].clone();
                t.main = k == main;
            }
            m = Model::new(t);
        }
        let xml = to_xml(&m, &mut w.r, false);
        let Ok(Ok(db)) = guarded(|| Database::parse(&xml)) else { return };
        let show = format!("{:?}", m.terrs.iter().map(|t| (&t.id, t.code, t.main)).collect::<Vec<_>>());
        w.sample(|| json!(show));
        w.op(&format!("lookups of {show}"), || ());
        lookups(w, &db, Some(&m), &show);
        if i % 4 == 0 {
            let (a, b) = (db.clone(), db.clone().clone());
            lookups(w, &a, Some(&m), &format!("a clone of {show}"));
            drop(db);
            lookups(w, &b, Some(&m), &format!("a clone of a clone of {show}"));
            w.count("databases cloned");
        }
        // The same entries from records.
        if let Ok(Ok(db)) = guarded(|| Database::from(loader::load(xml.as_bytes())?)) {
            lookups(w, &db, Some(&m), &format!("from records {show}"));
        }
    });
    ctx.par(32, |w, _| {
        if let Some(db) = weird(w) {
            let ids: Vec<&str> = db.iter().map(|m| m.id()).collect();
            lookups(w, &db, None, &format!("hostile {ids:?}"));
        }
    });
    // Territories of the same name, under one code or several.
    ctx.par(ctx.quick_or(60, 1200), |w, _| {
        let ids = ["XK", "US", "001", "GB"];
        let n = w.r.range(2, 8);
        let codes = [w.r.range(1, 999) as u16, w.r.range(1, 999) as u16];
        let mut t: Vec<Terr> = (0..n).map(|_| w.r.pick(&bundled().terrs).clone()).collect();
        for (k, t) in t.iter_mut().enumerate() {
            t.code = *w.r.pick(&codes);
            t.id = w.r.pick(&ids).to_string();
            t.main = w.r.chance(1, 5);
            // Told apart by their prefix.
            t.np = Some(format!("{k}"));
        }
        let xml = to_xml(&Model::new(t.clone()), &mut w.r, false);
        let Ok(Ok(db)) = guarded(|| Database::parse(&xml)) else { return };
        let show = format!("same names {:?}", t.iter().map(|t| (&t.id, t.code, t.main, &t.np)).collect::<Vec<_>>());
        w.op(&format!("lookups of {show}"), || ());
        lookups(w, &db, None, &show);
        let mut got: Vec<&str> = db.iter().filter_map(|m| m.national_prefix()).collect();
        got.sort();
        let want: Vec<&str> = t.iter().filter_map(|t| t.np.as_deref()).collect();
        w.check(got == want, || ("iteration does not yield every entry once".into(), json!({ "database": show, "got": got })));
        w.count("databases with territories of the same name");
    });
}

/// A reader that delivers its bytes in small pieces, with interruptions, and
/// may fail at one byte.
struct Pieces<'a> {
    data: &'a [u8],
    at: usize,
    next: usize,
    r: Rng,
    max: usize,
    interrupt: bool,
    fail: Option<(usize, io::ErrorKind)>,
    /// How often it still fails there, before it goes on.
    times: usize,
    pub failed: &'a std::cell::Cell<bool>,
}

impl Read for Pieces<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = {
            let b = self.fill_buf()?;
            let n = b.len().min(buf.len());
            buf[..n].copy_from_slice(&b[..n]);
            n
        };
        self.consume(n);
        Ok(n)
    }
}

impl BufRead for Pieces<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if let Some((k, kind)) = self.fail {
            if self.at >= k && self.times > 0 {
                self.times -= 1;
                self.failed.set(true);
                return Err(io::Error::new(kind, "injected"));
            }
        }
        if self.next <= self.at {
            if self.interrupt && self.r.chance(1, 5) {
                return Err(io::Error::new(io::ErrorKind::Interrupted, "injected"));
            }
            self.next = (self.at + self.r.range(1, self.max)).min(self.data.len());
            if let Some((k, _)) = self.fail {
                if self.at < k {
                    self.next = self.next.min(k);
                }
            }
        }
        Ok(&self.data[self.at..self.next])
    }
    fn consume(&mut self, n: usize) {
        self.at += n;
    }
}

fn scratch(ctx: &Ctx, w: &W) -> String {
    format!("{}/doc.{}.xml", ctx.dir, w.shard)
}

pub fn c07(ctx: &Ctx) {
    ctx.rule(
        "documents generated from the metadata grammar (territories made up and taken from the shipped file, attributes \
         in any order, comments, declarations, ranges, white space), loaded as string, file, records and through readers \
         delivering 1 to n bytes at a time with interruptions; all against the content generated. Distinct by document \
         and way of delivery.",
    );
    let none = std::cell::Cell::new(false);
    let _ = none;
    ctx.par(ctx.quick_or(1200, 12_000), |w, i| {
        let mut m = custom(bundled(), &mut w.r, 5);
        if i % 4 == 3 {
            // Unusual texts, which only the content of a document can tell.
            for t in &mut m.terrs {
                for (f, _, intl) in &mut t.raw_fmts {
                    // Nothing but "NA" means that there is no format.
                    if w.r.chance(1, 4) {
                        *intl = Some(w.r.pick(&["", " NA", "NA ", "na", "N/A", "NA $1", "$1", "NANA"]).to_string());
                    }
                    if w.r.chance(1, 6) {
                        f.format = w.r.pick(&["", " ", "NA", " $1", "$1 ", "$1  $2", "$1\u{A0}$2", "$0", "1"]).to_string();
                    }
                    if w.r.chance(1, 6) {
                        f.np_rule = Some(w.r.pick(&["", " ", "$NP", " $FG ", "$FG"]).to_string());
                    }
                    if w.r.chance(1, 6) {
                        f.carrier = Some(w.r.pick(&["", " ", "$CC", "$NP$CC"]).to_string());
                    }
                    // Empty, repeated and many leading digits, in any order.
                    for _ in 0..w.r.below(4).saturating_sub(1) {
                        let x = if w.r.chance(1, 2) || f.leading.is_empty() { Rx::new(w.r.pick(&["", " ", "\n  ", "0", "00", "[1-9]", "(?:1|2)"])) } else { w.r.pick(&f.leading).clone() };
                        let at = w.r.below(f.leading.len() + 1);
                        f.leading.insert(at, x);
                    }
                }
                for v in [&mut t.idd, &mut t.np_parse, &mut t.leading] {
                    if w.r.chance(1, 10) {
                        *v = Some(Rx::new(w.r.pick(&["", " ", "0", "(?:)", "()"])));
                    }
                }
                for (k, d) in &mut t.descs {
                    if w.r.chance(1, 8) {
                        d.example = Some(w.r.pick(&["", " ", "0", " 12", "12 ", "1 2", "NA", "\u{661}\u{662}", "123456789012345678901234567890", "+1"]).to_string());
                    }
                    if *k != Kind::General as u8 && w.r.chance(1, 8) {
                        let mut l: Vec<u16> = (0..w.r.range(1, 9)).map(|_| *w.r.pick(&[0, 1, 2, 3, 17, 18, 19, 60, 99, 100, 255, 256, 257, 258, 300, 511, 512, 1000, 65_534, 65_535])).collect();
                        l.sort();
                        l.dedup();
                        d.lens = l;
                    }
                }
                // The general lengths follow from those of the types.
                if t.types().any(|(_, d)| !d.lens.is_empty()) {
                    let g = t.descs.get_mut(&(Kind::General as u8)).unwrap();
                    g.lens.clear();
                    g.local.clear();
                }
                for v in [&mut t.pref_idd, &mut t.np, &mut t.pref_ext, &mut t.np_transform, &mut t.d_np_rule, &mut t.d_carrier] {
                    if w.r.chance(1, 8) {
                        *v = Some(w.r.pick(&["", " ", "0 ", " 0", "NA", "00", "\u{E9}"]).to_string());
                    }
                }
            }
            m = Model::new(m.terrs);
        }
        let xml = to_xml(&m, &mut w.r, i % 4 != 0);
        let what = format!("loading {xml}");
        w.eval(&xml);
        w.sample(|| json!(xml.chars().take(1500).collect::<String>()));
        let short = || xml.chars().take(6000).collect::<String>();
        let Some(db) = w.op(&what, || Database::parse(&xml)) else { return };
        let db = match db {
            Ok(db) => db,
            Err(e) => {
                w.fail(format!("a well-formed document is rejected: {e}"), json!(short()));
                return;
            }
        };
        w.check(db.iter().count() == m.terrs.len(), || {
            ("a document loads with another number of territories".into(), json!({ "got": db.iter().count(), "expected": m.terrs.len(), "document": short() }))
        });
        for t in &m.terrs {
            let Some(got) = entry(&db, t) else {
                w.fail("a territory of the document is missing".into(), json!({ "territory": t.id, "document": short() }));
                continue;
            };
            w.count("territories compared");
            if let Err(e) = compare(w, got, t, 6) {
                w.fail("the loaded entry differs from the document".into(), json!({ "territory": t.id, "difference": e, "document": short() }));
                return;
            }
        }
        // However the bytes arrive.
        let Some(Ok(base)) = w.op(&what, || loader::load(Cursor::new(xml.as_bytes()))) else {
            w.fail("the loader rejects a document that Database::parse accepts".into(), json!(short()));
            return;
        };
        w.check(
            base.iter().map(|r| (r.id.clone(), r.country_code)).eq(m.terrs.iter().map(|t| (Some(t.id.clone()), Some(t.code)))),
            || ("the records are not the territories in document order".into(), json!(short())),
        );
        let want = format!("{base:?}");
        let path = scratch(ctx, w);
        if i % 8 == 0 {
            std::fs::write(&path, &xml).unwrap();
            let got = w.op(&what, || Database::load(&path));
            let _ = std::fs::remove_file(&path);
            w.count("loaded from a file");
            match got {
                Some(Ok(f)) => {
                    for t in &m.terrs {
                        let (a, b) = (entry(&f, t).map(|m| format!("{m:?}")), entry(&db, t).map(|m| format!("{m:?}")));
                        w.check(a == b, || ("a file loads differently from a string".into(), json!({ "territory": t.id, "document": short() })));
                    }
                }
                Some(Err(e)) => w.fail(format!("a file is rejected that loads as a string: {e}"), json!(short())),
                None => return,
            }
        }
        for k in 0..4 {
            let failed = std::cell::Cell::new(false);
            let max = [1, 2, 7, 300][k];
            let (seed, interrupt) = (w.r.u64(), k % 2 == 1);
            let got = w.op(&what, || {
                loader::load(Pieces { data: xml.as_bytes(), at: 0, next: 0, r: Rng::new(seed), max, interrupt, fail: None, times: usize::MAX, failed: &failed })
            });
            w.eval(&format!("{max}/{interrupt}/{xml}"));
            w.count("loaded in pieces");
            let same = matches!(&got, Some(Ok(v)) if format!("{v:?}") == want);
            w.check(got.is_none() || same, || {
                (
                    "the way the bytes arrive changes what is loaded".into(),
                    json!({ "piece": max, "interrupted": interrupt, "got": got.map(|g| g.map(|v| v.len()).map_err(|e| e.to_string()).map_or_else(|e| e, |n| format!("{n} records"))), "document": short() }),
                )
            });
        }
    });
    // The shipped document itself, all the ways.
    ctx.par(4, |w, k| {
        let xml = std::fs::read(xml_path()).unwrap();
        let failed = std::cell::Cell::new(false);
        let got = w.op("loading the shipped metadata", || match k {
            0 => loader::load(&xml[..]),
            1 => loader::load(io::BufReader::with_capacity(17, &xml[..])),
            2 => loader::load(Pieces { data: &xml, at: 0, next: 0, r: Rng::new(7), max: 5000, interrupt: true, fail: None, times: usize::MAX, failed: &failed }),
            _ => loader::load(io::BufReader::new(std::fs::File::open(xml_path())?)),
        });
        w.eval(&format!("shipped/{k}"));
        match got {
            Some(Ok(v)) => {
                let (a, b) = (format!("{v:?}"), format!("{:?}", records()));
                w.check(a == b, || ("the shipped metadata loads differently in pieces".into(), json!(k)));
            }
            Some(Err(e)) => w.fail(format!("the shipped metadata is rejected: {e}"), json!(k)),
            None => (),
        }
    });
}

/// A document small enough to be damaged everywhere.
fn small(r: &mut Rng, fancy: bool) -> String {
    let mut m = custom(bundled(), r, 2);
    if m.terrs.iter().all(|t| t.raw_fmts.is_empty()) || r.chance(1, 2) {
        let mut v = m.terrs;
        v.truncate(1);
        v.push(synthetic("NZ", 64, r));
        m = Model::new(v.into_iter().collect());
    }
    let mut xml = to_xml(&m, r, fancy);
    if xml.len() > 6000 {
        let t = synthetic("NZ", 64, r);
        xml = to_xml(&Model::new(vec![t]), r, fancy);
    }
    xml
}

fn rejected(w: &mut W, xml: &[u8], what: &str, kind: &'static str) {
    w.count(kind);
    let op = format!("loading a document with {what}");
    let got = w.op(&op, || {
        let a = loader::load(xml).and_then(Database::from).is_ok();
        let b = std::str::from_utf8(xml).is_ok_and(|s| Database::parse(s).is_ok());
        (a, b)
    });
    w.check(got.is_none_or(|(a, b)| !a && !b), || {
        (
            format!("a document with {what} is accepted"),
            json!({ "document": String::from_utf8_lossy(xml).chars().take(6000).collect::<String>() }),
        )
    });
}

/// The places of a document: (after an opening tag of, inside the tag of).
fn tags(xml: &str) -> Vec<(String, usize, usize, bool)> {
    // name, offset of '<', offset just behind the name, empty element
    let b = xml.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'<' {
            i += 1;
            continue;
        }
        if xml[i..].starts_with("<!--") {
            i += xml[i..].find("-->").unwrap() + 3;
            continue;
        }
        if xml[i..].starts_with("<!DOCTYPE") {
            i += xml[i..].find("]>").unwrap() + 2;
            continue;
        }
        if xml[i..].starts_with("<?") || xml[i..].starts_with("</") {
            i += xml[i..].find('>').unwrap() + 1;
            continue;
        }
        let n = xml[i + 1..].find(|c: char| !c.is_alphanumeric()).unwrap();
        // The closing '>' is the first one outside quotes.
        let mut q = None;
        let mut j = i + 1 + n;
        while j < b.len() {
            match (q, b[j]) {
                (None, b'"' | b'\'') => q = Some(b[j]),
                (Some(c), d) if c == d => q = None,
                (None, b'>') => break,
                _ => (),
            }
            j += 1;
        }
        v.push((xml[i + 1..i + 1 + n].to_string(), i, i + 1 + n, b[j - 1] == b'/'));
        i = j + 1;
    }
    v
}

pub fn c08(ctx: &Ctx) {
    ctx.rule(
        "generated documents, each cut off at every byte before its end, read through a source failing at every byte \
         (several error kinds), and damaged at every position where an unknown element or attribute, a malformed \
         integer, boolean or pattern, or a missing required value is possible; each must be rejected. Distinct by \
         document and place; every fault point is enumerated.",
    );
    let docs = ctx.quick_or(16, 200);
    // The work on one document is split over several shards.
    const PARTS: usize = 16;
    let doc_rng = |kind: u64, i: usize| Rng::new(crate::rng::mix(ctx.seed) ^ crate::rng::mix(2 * i as u64 + kind));
    // Truncation and I/O errors, everywhere.
    ctx.par(docs * PARTS, |w, i| {
        let (i, part) = (i / PARTS, i % PARTS);
        let xml = small(&mut doc_rng(0, i), i % 2 == 1);
        let b = xml.trim_end().as_bytes();
        let doc = xml.chars().take(900).collect::<String>();
        w.sample(|| json!({ "bytes": b.len(), "part": part, "document": if part == 0 { doc } else { String::new() } }));
        if !matches!(guarded(|| Database::parse(&xml)), Ok(Ok(_))) {
            w.count("documents that do not load");
            return;
        }
        for k in (0..b.len()).filter(|k| k % PARTS == part) {
            if w.over() {
                return;
            }
            w.eval(&format!("cut/{i}/{k}"));
            rejected(w, &b[..k], &format!("only its first {k} of {} bytes", b.len()), "truncations");
        }
        let kinds = [
            io::ErrorKind::Other, io::ErrorKind::UnexpectedEof, io::ErrorKind::WouldBlock, io::ErrorKind::TimedOut,
            io::ErrorKind::BrokenPipe, io::ErrorKind::InvalidData, io::ErrorKind::ConnectionReset, io::ErrorKind::NotFound,
            io::ErrorKind::PermissionDenied, io::ErrorKind::InvalidInput, io::ErrorKind::ConnectionAborted,
        ];
        for k in (0..b.len()).filter(|k| k % PARTS == part) {
            if w.over() {
                return;
            }
            w.eval(&format!("fail/{i}/{k}"));
            let failed = std::cell::Cell::new(false);
            let kind = kinds[k % kinds.len()];
            let (seed, max) = (w.r.u64(), [1, 13, 1000, 100_000][k % 4]);
            // Most never recover.
            let times = if w.r.chance(1, 3) { w.r.range(1, 3) } else { usize::MAX };
            let got = w.op(&format!("loading from a source failing at byte {k}"), || {
                loader::load(Pieces { data: b, at: 0, next: 0, r: Rng::new(seed), max, interrupt: k % 3 == 0, fail: Some((k, kind)), times, failed: &failed })
                    .map(|v| v.len())
            });
            w.count(if times == usize::MAX { "I/O failures" } else { "I/O failures that pass" });
            w.check(!matches!(got, Some(Ok(_))), || {
                (
                    "a document is accepted although its source failed".into(),
                    json!({ "byte": k, "of": b.len(), "error": format!("{kind:?}"), "seen by the loader": failed.get(), "records": format!("{got:?}"), "document": xml.chars().take(4000).collect::<String>() }),
                )
            });
        }
    });
    // The shipped file, cut off behind each territory and at random places.
    ctx.par(ctx.quick_or(48, 480), |w, i| {
        let xml = std::fs::read(xml_path()).unwrap();
        let ends: Vec<usize> = xml.windows(12).enumerate().filter(|(_, s)| s == b"</territory>").map(|(k, _)| k + 12).collect();
        for j in 0..6 {
            if w.over() {
                return;
            }
            let k = match (i * 6 + j) % 3 {
                0 => ends[ends.len() - 1 - (i * 2 + j / 3) % ends.len()] + w.r.below(3),
                1 if i % 2 == 0 => xml.trim_ascii_end().len() - 1 - w.r.below(60),
                1 => w.r.below(xml.len() - 30),
                _ => *w.r.pick(&ends) + w.r.below(8),
            };
            w.eval(&format!("shipped/{k}"));
            w.count("cut off in the shipped file");
            let got = w.op(&format!("loading the first {k} bytes of the shipped file"), || loader::load(&xml[..k]).map(|v| v.len()));
            w.check(!matches!(got, Some(Ok(_))), || {
                ("a truncated document is accepted".into(), json!({ "file": "the shipped one", "cut at": k, "of": xml.len(), "records": format!("{got:?}") }))
            });
        }
    });
    // Wrong items, everywhere they can stand.
    ctx.par(ctx.quick_or(12, 150) * PARTS, |w, i| {
        let (i, part) = (i / PARTS, i % PARTS);
        let xml = small(&mut doc_rng(1, i), i % 2 == 0);
        let turn = std::cell::Cell::new(0);
        let mine = || {
            turn.set(turn.get() + 1);
            turn.get() % PARTS == part
        };
        if !matches!(guarded(|| Database::parse(&xml)), Ok(Ok(_))) {
            return;
        }
        let all = tags(&xml);
        const INSIDE: [&str; 17] = [
            "territory", "availableFormats", "numberFormat", "generalDesc", "fixedLine", "mobile", "tollFree", "pager",
            "premiumRate", "sharedCost", "personalNumber", "voip", "uan", "voicemail", "emergency",
            "noInternationalDialling", "format",
        ];
        for (name, start, behind, empty) in &all {
            if w.over() {
                return;
            }
            let close = if *empty {
                None
            } else {
                xml[*behind..].find(&format!("</{name}>")).map(|p| p + behind)
            };
            if let Some(c) = close.filter(|_| INSIDE.contains(&name.as_str())) {
                for x in ["<bogus/>", "<bogus></bogus>", "<Territory></Territory>", "<possibleLength national=\"5\"/>", "<pattern>1</pattern>"] {
                    if name == "format" && !x.starts_with("<bogus") {
                        continue;
                    }
                    let d = format!("{}{x}{}", &xml[..c], &xml[c..]);
                    if mine() {
                        w.eval(&format!("element/{i}/{c}/{x}"));
                        rejected(w, d.as_bytes(), &format!("an unknown element {x} in <{name}>"), "unknown elements");
                    }
                }
            }
            if ["territory", "numberFormat", "possibleLengths"].contains(&name.as_str()) {
                // The last one comes behind the attributes that are there.
                let within = if xml[*behind..].starts_with('>') || xml[*behind..].starts_with('/') { *behind } else { xml[*behind..].find('>').unwrap() + behind };
                let last = if xml[..within].ends_with('/') { within - 1 } else { within };
                for (x, behind) in [" bogus=\"1\"", " Id=\"US\"", " National=\"5\"", " leadingDigit=\"1\"", " x:id=\"1\"", " bogus=\"\"", " National=''", " Pattern='x'", " x='false'"]
                    .iter()
                    .flat_map(|x| [(x, *behind), (x, last)])
                {
                    let behind = &behind;
                    let d = format!("{}{x}{}", &xml[..*behind], &xml[*behind..]);
                    if mine() {
                        w.eval(&format!("attribute/{i}/{behind}/{x}"));
                        rejected(w, d.as_bytes(), &format!("an unknown attribute{x} on <{name}>"), "unknown attributes");
                    }
                }
            }
            let _ = start;
            if ["territory", "numberFormat", "possibleLengths"].contains(&name.as_str()) {
                // Malformed markup of attributes, and one that is there twice.
                let end = xml[*behind..].find('>').unwrap() + behind;
                let twice = xml[*behind..end].split_whitespace().find(|a| a.contains('=') && (a.matches(['"', '\'']).count() == 2)).map(|a| format!(" {}", a.trim_end_matches('/')));
                for x in [" bogus=1", " bogus", " id=US", " pattern=x", " national=7", " =\"1\"", " bogus=", " 'x'"].map(String::from).into_iter().chain(twice) {
                    let d = format!("{}{x}{}", &xml[..*behind], &xml[*behind..]);
                    if mine() {
                        w.eval(&format!("markup/{i}/{behind}/{x}"));
                        rejected(w, d.as_bytes(), &format!("a malformed or repeated attribute{x} on <{name}>"), "malformed attributes");
                    }
                }
            }
        }
        // Attribute values.
        let attr = |name: &str| -> Vec<(usize, usize)> {
            let mut v = vec![];
            for q in ['"', '\''] {
                let key = format!("{name}={q}");
                let mut from = 0;
                while let Some(p) = xml[from..].find(&key) {
                    let at = from + p;
                    let a = at + key.len();
                    let z = a + xml[a..].find(q).unwrap();
                    if xml[..at].ends_with(|c: char| c.is_whitespace()) {
                        v.push((a, z));
                    }
                    from = z;
                }
            }
            v
        };
        let replace = |w: &mut W, name: &str, values: &[&str], kind: &'static str| {
            for (a, z) in attr(name) {
                for v in values {
                    let d = format!("{}{v}{}", &xml[..a], &xml[z..]);
                    if mine() {
                        w.eval(&format!("value/{i}/{a}/{v}"));
                        rejected(w, d.as_bytes(), &format!("{name}={v:?}"), kind);
                    }
                }
            }
        };
        let ints = ["", "x", "-1", "65536", "1.5", "99999999999999999999", "0x10", "1 2", " 44", "44 ", "44\n", "4_4", "+", "\u{661}"];
        replace(w, "countryCode", &ints, "malformed integers");
        let lens = ["", "x", "5,", ",5", "5,,6", "[5-7", "5-7]", "[5]", "[a-7]", "[5-x]", "[-7]", "-1", "65536", "[5-70000]", "5;6", "[5-7]x", "[[5-7]]", "[5 -7x]", "5 6", "[]", "[-]", "[5-7],", "[5-7][8-9]", "5.", "0x5"];
        replace(w, "national", &lens, "malformed lengths");
        replace(w, "localOnly", &lens, "malformed lengths");
        let bools = ["", "TRUE", "yes", "1", "0", "tru", "False", "true ", " false", "true,", "t", "null", "on"];
        for n in ["mainCountryForCode", "mobileNumberPortableRegion", "nationalPrefixOptionalWhenFormatting"] {
            replace(w, n, &bools, "malformed booleans");
        }
        // (A pattern too large to compile takes long to be refused.)
        if i == 0 {
            replace(w, "leadingDigits", &["\\d{99999}"], "malformed patterns");
        }
        let rxs = ["(", "[0-9", "\\d{2", "(?P&lt;)", "*1", "\\q", "(?:1", "[9-0]", "(?=1)1", "(1)\\1"];
        for n in ["internationalPrefix", "nationalPrefixForParsing", "leadingDigits", "pattern"] {
            replace(w, n, &rxs, "malformed patterns");
        }
        for n in ["leadingDigits", "nationalNumberPattern"] {
            let (open, close) = (format!("<{n}>"), format!("</{n}>"));
            let mut from = 0;
            while let Some(p) = xml[from..].find(&open) {
                let a = from + p + open.len();
                let z = a + xml[a..].find(&close).unwrap();
                for v in rxs {
                    let d = format!("{}{v}{}", &xml[..a], &xml[z..]);
                    if mine() {
                        w.eval(&format!("text/{i}/{a}/{v}"));
                        rejected(w, d.as_bytes(), &format!("<{n}>{v}</{n}>"), "malformed patterns");
                    }
                }
                // Without its value altogether.
                if n == "nationalNumberPattern" {
                    let d = format!("{}{}", &xml[..a - open.len()], &xml[z + close.len()..]);
                    if mine() {
                        w.eval(&format!("missing/{i}/{a}/{n}"));
                        rejected(w, d.as_bytes(), "a description without a pattern", "missing values");
                    }
                }
                from = z;
            }
        }
        // Required things left out.
        for n in ["id", "countryCode", "pattern"] {
            for (a, z) in attr(n) {
                // From the name to the closing quote.
                let d = format!("{}{}", &xml[..a - n.len() - 2], &xml[z + 1..]);
                if mine() {
                    w.eval(&format!("missing/{i}/{a}/{n}"));
                    rejected(w, d.as_bytes(), &format!("no {n}"), "missing values");
                }
            }
        }
        for n in ["format", "generalDesc"] {
            let (open, close) = (format!("<{n}>"), format!("</{n}>"));
            let mut from = 0;
            while let Some(p) = xml[from..].find(&open) {
                let a = from + p;
                let z = a + xml[a..].find(&close).unwrap() + close.len();
                let d = format!("{}{}", &xml[..a], &xml[z..]);
                if mine() {
                    w.eval(&format!("missing/{i}/{a}/{n}"));
                    rejected(w, d.as_bytes(), &format!("no <{n}>"), "missing values");
                }
                from = z;
            }
        }
        // A tag closed by another.
        for (name, _, behind, empty) in &all {
            if *empty {
                continue;
            }
            if let Some(c) = xml[*behind..].find(&format!("</{name}>")).map(|p| p + behind) {
                let d = format!("{}</wrong>{}", &xml[..c], &xml[c + name.len() + 3..]);
                if mine() {
                    w.eval(&format!("close/{i}/{c}"));
                    rejected(w, d.as_bytes(), &format!("<{name}> closed by </wrong>"), "mismatched tags");
                }
            }
        }
    });
    // Records, as if a loader had left something out.
    ctx.par(ctx.quick_or(40, 400), |w, i| {
        let all = records();
        if all.is_empty() {
            return;
        }
        // A territory with short patterns, which compile fast.
        let size = |m: &loader::Metadata| format!("{m:?}").len();
        let base = (0..6).map(|_| w.r.pick(all)).min_by_key(|m| size(m)).unwrap().clone();
        if !matches!(guarded(|| Database::from(vec![base.clone()])), Ok(Ok(_))) {
            return;
        }
        let mut bad: Vec<(String, loader::Metadata)> = vec![];
        let mut put = |n: &str, f: &mut dyn FnMut(&mut loader::Metadata) -> bool| {
            let mut m = base.clone();
            if f(&mut m) {
                bad.push((n.to_string(), m));
            }
        };
        put("no id", &mut |m| { m.id = None; true });
        put("no code", &mut |m| { m.country_code = None; true });
        put("no general", &mut |m| { m.general = None; true });
        for rx in ["(", "[", "\\d{2", "*"] {
            put("bad internationalPrefix", &mut |m| { m.international_prefix = Some(rx.into()); true });
            put("bad nationalPrefixForParsing", &mut |m| { m.national_prefix_for_parsing = Some(rx.into()); true });
            put("bad leadingDigits", &mut |m| { m.leading_digits = Some(rx.into()); true });
            for k in 0..base.formats.len() {
                put("bad format pattern", &mut |m| { m.formats[k].pattern = Some(rx.into()); true });
                put("bad format leading digits", &mut |m| { m.formats[k].leading_digits.push(rx.into()); true });
            }
            for k in 0..base.international_formats.len() {
                put("bad intl pattern", &mut |m| { m.international_formats[k].pattern = Some(rx.into()); true });
            }
        }
        for k in 0..base.formats.len() {
            put("no pattern", &mut |m| { m.formats[k].pattern = None; true });
            put("no format", &mut |m| { m.formats[k].format = None; true });
        }
        for k in 0..base.international_formats.len() {
            put("no intl pattern", &mut |m| { m.international_formats[k].pattern = None; true });
            put("no intl format", &mut |m| { m.international_formats[k].format = None; true });
        }
        fn descs(m: &mut loader::Metadata) -> [&mut Option<loader::Descriptor>; 16] {
            [
                &mut m.general, &mut m.fixed_line, &mut m.mobile, &mut m.toll_free, &mut m.premium_rate, &mut m.shared_cost,
                &mut m.personal_number, &mut m.voip, &mut m.pager, &mut m.uan, &mut m.emergency, &mut m.voicemail,
                &mut m.short_code, &mut m.standard_rate, &mut m.carrier, &mut m.no_international,
            ]
        }
        for k in 0..16 {
            put("description without pattern", &mut |m| { descs(m)[k].get_or_insert_default().national_number = None; true });
            put("description with a bad pattern", &mut |m| { descs(m)[k].get_or_insert_default().national_number = Some("(".into()); true });
        }
        // Wherever the bad record stands.
        for (n, m) in bad {
            for k in 0..3 {
                let mut v = vec![base.clone(), base.clone()];
                v.insert(k, m.clone());
                w.eval(&format!("record/{i}/{n}/{k}/{:?}", m.id));
                w.count("bad records");
                let got = w.op(&format!("Database::from with {n}"), || Database::from(v).is_ok());
                w.check(got != Some(true), || (format!("records with {n} are accepted"), json!({ "place": k, "record": format!("{m:?}").chars().take(3000).collect::<String>() })));
            }
        }
    });
}

pub fn c02(ctx: &Ctx) {
    ctx.rule(
        "metadata documents with bytes flipped, spans removed, repeated or swapped, hostile tokens inserted, deep nesting, \
         extreme numbers, foreign encodings, random bytes; damaged readers and paths; damaged records. Distinct by \
         document.",
    );
    const TOKENS: [&str; 58] = [
        "<", ">", "</", "/>", "<!--", "-->", "<![CDATA[", "]]>", "<?xml version=\"1.0\"?>", "<?", "?>", "<!DOCTYPE", "<!",
        "&amp;", "&#x110000;", "&#0;", "&bogus;", "&", "\"", "'", "=", "<territory>", "</territory>", "<territories>",
        "</territories>", "<phoneNumberMetadata>", "</phoneNumberMetadata>", "<possibleLengths/>",
        "<possibleLengths national=\"[5-4]\"/>", "<possibleLengths national=\"[0-65535]\"/>",
        "<possibleLengths national=\"[0-4294967295]\"/>", "<possibleLengths national=\"[-]\"/>",
        "<possibleLengths national=\"-\"/>", "<possibleLengths national=\"[\"/>", "<possibleLengths national=\"]\"/>",
        "<possibleLengths national=\"[]\"/>", "<possibleLengths national=\"\u{E9}\"/>", "<possibleLengths national=\"[\u{E9}-\u{E9}]\"/>",
        "<references>", "<references/>", "<generalDesc/>", "<generalDesc></generalDesc>", "<numberFormat/>",
        "<format/>", "<format></format>", "<availableFormats/>", "\u{0}", "\u{FEFF}", "\u{FFFD}", "\r\n", "(((((((((",
        "\\d{1000}{1000}", "(?x)", "#", "$", "[[:alpha:]]", "\\", "x{0}",
    ];
    fn load(w: &mut W, doc: &[u8], kind: &'static str) {
        w.count(kind);
        let show: String = String::from_utf8_lossy(doc).chars().take(3000).collect();
        w.evals += 1;
        if w.distinct.len() < 400_000 {
            w.distinct.insert(crate::rng::hash(doc));
        }
        let got = w.op(&format!("{kind}: load {show}"), || loader::load(doc));
        w.sample(|| json!({ "kind": kind, "document": show, "records": got.as_ref().map(|g| g.as_ref().map_or(-1, |v| v.len() as i64)) }));
        match got {
            Some(Ok(v)) => {
                w.count("records loaded");
                let ok = w.op(&format!("{kind}: from records of {show}"), || Database::from(v).map(|db| db.iter().count()).is_ok());
                w.count(if ok == Some(true) { "databases" } else { "databases refused" });
            }
            Some(Err(e)) => {
                w.count("documents refused");
                w.op("Display of the error", || format!("{e} {e:?}"));
            }
            None => (),
        }
        if let Ok(s) = std::str::from_utf8(doc) {
            w.op(&format!("{kind}: parse {show}"), || Database::parse(s).is_ok());
        }
    }
    ctx.par(ctx.quick_or(400, 8000), |w, i| {
        let base = small(&mut w.r, i % 2 == 0);
        w.sample(|| json!(base.chars().take(600).collect::<String>()));
        for _ in 0..24 {
            if w.over() {
                return;
            }
            let mut b = base.clone().into_bytes();
            let r = &mut w.r;
            for _ in 0..r.range(1, 4) {
                if b.is_empty() {
                    break;
                }
                let (x, y) = (r.below(b.len()), r.below(b.len()));
                let (x, y) = (x.min(y), x.max(y));
                match r.below(9) {
                    0 => b[x] = r.u64() as u8,
                    1 => b[x] ^= 1 << r.below(8),
                    2 => drop(b.drain(x..y)),
                    3 => {
                        let s: Vec<u8> = b[x..y.min(x + 400)].to_vec();
                        b.splice(y..y, s);
                    }
                    4 => b.truncate(x),
                    5 => {
                        let y = y.min(x + 8);
                        drop(b.drain(x..y));
                    }
                    _ => {
                        let t = r.pick(&TOKENS).as_bytes().to_vec();
                        // Where the grammar is delicate: next to markup.
                        let at = b[x..].iter().position(|c| b"<>=\"/".contains(c)).map_or(x, |p| x + p + r.below(2));
                        let at = at.min(b.len());
                        b.splice(at..at, t);
                    }
                }
            }
            load(w, &b, "damaged documents");
        }
    });
    ctx.par(64, |w, _| {
        for _ in 0..ctx.quick_or(60, 1500) {
            let n = w.r.range(0, 60);
            let b: Vec<u8> = (0..n).map(|_| w.r.u64() as u8).collect();
            load(w, &b, "random bytes");
            let mut s = String::from("<phoneNumberMetadata><territories>");
            for _ in 0..w.r.range(0, 30) {
                s.push_str(w.r.pick(&TOKENS));
            }
            load(w, s.as_bytes(), "random markup");
        }
    });
    // Growing documents: deep nesting, endless constructs.
    ctx.par(24, |w, i| {
        let n = ctx.quick_or(100_000, 1_000_000);
        let open = "<phoneNumberMetadata><territories><territory id=\"US\" countryCode=\"1\">";
        let doc = match i {
            0 => format!("{}", "<a>".repeat(n)),
            1 => format!("<phoneNumberMetadata>{}", "<a>".repeat(n)),
            2 => format!("<phoneNumberMetadata>{}{}</phoneNumberMetadata>", "<a>".repeat(n), "</a>".repeat(n)),
            3 => format!("{open}{}", "<references>".repeat(n)),
            4 => format!("{open}<references>{}", "<a><b/></a>".repeat(n / 4)),
            5 => format!("{open}<references>{}{}</references></territory></territories></phoneNumberMetadata>", "<x>".repeat(n), "</x>".repeat(n)),
            6 => format!("{open}<generalDesc><nationalNumberPattern>{}{}</nationalNumberPattern></generalDesc></territory></territories></phoneNumberMetadata>", "(".repeat(n), ")".repeat(n)),
            7 => format!("{open}<generalDesc><nationalNumberPattern>{}</nationalNumberPattern></generalDesc></territory></territories></phoneNumberMetadata>", "1|".repeat(n)),
            8 => format!("{open}<generalDesc><possibleLengths national=\"{}\"/>", "[0-65535],".repeat(n / 1000)),
            9 => format!("{open}<generalDesc><possibleLengths national=\"{}\"/>", "[".repeat(n)),
            10 => format!("{open}<generalDesc><possibleLengths national=\"{}\"/>", "1,".repeat(n)),
            11 => format!("{open}<!--{}", "-".repeat(n)),
            12 => format!("<!DOCTYPE a [{}", "<!ENTITY x \"y\">".repeat(n / 8)),
            13 => format!("<!DOCTYPE a {}", "[".repeat(n)),
            14 => format!("<phoneNumberMetadata>{}", " ".repeat(n)),
            15 => format!("<phoneNumberMetadata>{}", "<territories></territories>".repeat(n / 8)),
            16 => format!("<phoneNumberMetadata><territories><territory {}", "a=\"b\" ".repeat(n / 4)),
            17 => format!("<phoneNumberMetadata><territories><territory id=\"{}\">", "a".repeat(n)),
            18 => format!("{open}{}", "<availableFormats></availableFormats>".repeat(n / 8)),
            19 => format!("{open}<availableFormats>{}", "<numberFormat pattern=\"1\"><format>$1</format></numberFormat>".repeat(n / 20)),
            20 => "\u{FEFF}".to_string() + &bundled().terrs.len().to_string(),
            21 => format!("{open}<generalDesc><nationalNumberPattern>{}</nationalNumberPattern></generalDesc></territory></territories></phoneNumberMetadata>", "[".repeat(n / 10)),
            22 => format!("{open}<generalDesc><nationalNumberPattern>(((((\\d{{100}}){{100}}){{100}}){{100}}){{100}}</nationalNumberPattern></generalDesc></territory></territories></phoneNumberMetadata>"),
            _ => "</a>".repeat(n),
        };
        load(w, doc.as_bytes(), "growing documents");
        // And in another encoding.
        let wide: Vec<u8> = doc.encode_utf16().take(10_000).flat_map(|u| u.to_le_bytes()).collect();
        load(w, &wide, "foreign encodings");
    });
    // Sources that fail or lie.
    ctx.par(ctx.quick_or(40, 400), |w, _| {
        let xml = small(&mut w.r, true);
        for _ in 0..20 {
            let failed = std::cell::Cell::new(false);
            let k = w.r.below(xml.len() + 1);
            let kind = *w.r.pick(&[io::ErrorKind::Other, io::ErrorKind::WouldBlock, io::ErrorKind::InvalidData, io::ErrorKind::UnexpectedEof]);
            let (seed, max) = (w.r.u64(), w.r.range(1, 60));
            w.eval(&format!("{k}/{max}/{xml}"));
            w.count("failing sources");
            let times = if w.r.chance(1, 2) { w.r.range(1, 3) } else { usize::MAX };
            w.op("loading from a failing source", || {
                loader::load(Pieces { data: xml.as_bytes(), at: 0, next: 0, r: Rng::new(seed), max, interrupt: true, fail: Some((k, kind)), times, failed: &failed }).is_ok()
            });
        }
        for p in ["", "/", "/nonexistent/x", ".", "\u{0}", "/dev/null"] {
            w.op(&format!("Database::load({p:?})"), || Database::load(p).is_ok());
            w.count("odd paths");
        }
    });
    // Records.
    ctx.par(ctx.quick_or(200, 3000), |w, _| {
        for _ in 0..6 {
            w.evals += 1;
            w.count("hostile records");
            if let Some(db) = weird_checked(w) {
                w.op("iterating a hostile database", || db.iter().map(|m| format!("{m:?}").len()).sum::<usize>());
            }
        }
    });
}

/// As `weird`, but a panic of the loader is a violation.
fn weird_checked(w: &mut W) -> Option<Database> {
    let mut v: Vec<loader::Metadata> = vec![];
    let all = records();
    if all.is_empty() {
        return None;
    }
    for _ in 0..w.r.range(0, 3) {
        let mut m = w.r.pick(all).clone();
        let r = &mut w.r;
        const BAD: [&str; 12] = ["", "(", ")", "[", "\\", "(?x) #", "a)|(?:b", "\\d{999999}", "\u{0}", "(?P<n>", "$", "x*?+"];
        let mut opt = |v: &mut Option<String>| {
            if r.chance(1, 4) {
                *v = if r.chance(1, 3) { None } else { Some(r.pick(&BAD).to_string()) };
            }
        };
        opt(&mut m.id);
        opt(&mut m.international_prefix);
        opt(&mut m.national_prefix_for_parsing);
        opt(&mut m.leading_digits);
        for d in [&mut m.general, &mut m.mobile, &mut m.uan].into_iter().flatten() {
            opt(&mut d.national_number);
        }
        for f in m.formats.iter_mut().chain(&mut m.international_formats) {
            opt(&mut f.pattern);
            opt(&mut f.format);
            for l in &mut f.leading_digits {
                let mut x = Some(l.clone());
                opt(&mut x);
                *l = x.unwrap_or_default();
            }
        }
        if r.chance(1, 6) {
            m.general = None;
        }
        if r.chance(1, 6) {
            m.country_code = None;
        }
        if let Some(d) = &mut m.fixed_line {
            if r.chance(1, 4) {
                d.possible_length = (0..r.below(70_000)).map(|x| x as u16).rev().collect();
            }
        }
        v.push(m);
    }
    let show: String = format!("{v:?}").chars().take(4000).collect();
    let key = crate::rng::hash(show.as_bytes());
    w.distinct.insert(key);
    w.op(&format!("Database::from({show})"), || Database::from(v).ok()).flatten()
}
