//! Printing a number and reading it back.

use crate::gen::*;
use crate::model::*;
use crate::mon::{Ctx, W};
use crate::util::*;
use crate::work::*;
use super::num::print;
use phonenumber::country::Id;
use phonenumber::{Mode, PhoneNumber};
use serde_json::json;

type Hint = Option<(&'static str, Id)>;

/// Read a printed number back; what the metadata makes ambiguous (the stated
/// procedure itself reads another number from the text as it should be) is
/// counted but not judged.
fn back(w: &mut W, p: &PhoneNumber, s: &str, h: Hint, mode: &'static str) {
    let n = num(p);
    let hn = h.map_or("none", |h| h.0);
    w.eval(&format!("{mode}/{hn}/{s}"));
    let fits = |m: &Num| (m.code, &m.nsn, &m.ext) == (n.code, &n.nsn, &n.ext);
    let style = match mode {
        "E.164" => "E164",
        "international" => "International",
        "RFC 3966" => "Rfc3966",
        _ => "National",
    };
    let right = env().m.format(&n, style).unwrap_or_default();
    let Some(m) = env().m.parse(h.map(|h| h.0), &right).filter(|m| fits(m)) else {
        w.count("ambiguous by the metadata, not judged");
        return;
    };
    // A carrier code that the rules write and read again is kept.
    let carrier = n.carrier.is_some() && m.carrier == n.carrier;
    if carrier {
        w.count("round trips with a carrier");
    }
    w.count("round trips");
    let call = format!("parse({hn}, {s:?})");
    let Some(got) = w.op(&call, || phonenumber::parse(h.map(|h| h.1), s)) else { return };
    w.sample(|| json!({ "number": format!("{n:?}"), "call": call, "result": show(&got) }));
    w.check(got.as_ref().is_ok_and(|q| fits(&num(q)) && (!carrier || num(q).carrier == n.carrier)), || {
        (
            format!("the {mode} text does not parse back to the number"),
            json!({ "number": format!("{n:?}"), "call": call, "got": show(&got) }),
        )
    });
}

/// Valid numbers with an extension now and then.
fn each(ctx: &Ctx, reps: usize, f: impl Fn(&mut W, &'static Terr, &PhoneNumber) + Sync) {
    let e = env();
    valid_numbers(ctx, reps, |w, ti, _, nsn| {
        let t = &e.m.terrs[ti];
        if !storable(nsn) || !e.m.valid(t.code, nsn) {
            w.count("sampled numbers that are not valid");
            return;
        }
        let ext = w.r.chance(1, 2).then(|| {
            let k = w.r.range(1, 7);
            w.r.digits(k)
        });
        let Some(p) = build(t.code, nsn, ext.as_deref(), None).or_else(|| number(t.code, nsn)) else {
            w.count("numbers that could not be made");
            return;
        };
        let p = sourced(p, &mut w.r);
        f(w, t, &p);
    });
}

fn hints(w: &mut W, t: &'static Terr) -> Vec<Hint> {
    let mut v = vec![None, own(t), hint(&mut w.r), hint(&mut w.r)];
    v.dedup();
    v
}

pub fn c13(ctx: &Ctx) {
    ctx.rule(
        "numbers sampled for every territory, type and possible length; the exact E.164 text, and its parse without a \
         hint, in the own region and in random regions. Distinct by (hint, text).",
    );
    each(ctx, ctx.quick_or(20, 400), |w, t, p| {
        let n = num(p);
        let Some(s) = w.op(&format!("E.164 of {n:?}"), || print(p.format().mode(Mode::E164))) else { return };
        let want = format!("+{}{}", n.code, n.nsn);
        w.check(s.as_deref() == Some(&want), || {
            ("E.164 text is not '+', code and digits".into(), json!({ "number": format!("{n:?}"), "got": s, "expected": want }))
        });
        let text = w.op(&format!("string of {n:?}"), || p.to_string());
        w.check(text.as_deref() == Some(&want), || {
            ("converting to a string is not E.164".into(), json!({ "number": format!("{n:?}"), "got": text, "expected": want }))
        });
        // The extension is not part of E.164.
        let Some(bare) = build(n.code, &n.nsn, None, None).or_else(|| number(n.code, &n.nsn)) else { return };
        let bare = sourced(bare, &mut w.r);
        let Some(s) = s else { return };
        for h in hints(w, t) {
            back(w, &bare, &s, h, "E.164");
        }
    });
    // Any number: two of them share a text only if they are the same.
    ctx.par(env().m.terrs.len(), |w, ti| {
        let e = env();
        let mut seen = std::collections::HashMap::new();
        for _ in 0..ctx.quick_or(150, 3000) {
            let n = national(e, ti, &mut w.r);
            let z = format!("0{n}");
            for n in [n, z] {
                if !crate::gen::storable(&n) {
                    continue;
                }
                let code = e.m.terrs[ti].code;
                let (i, j) = (w.r.range(1, 40), w.r.range(1, 12));
                let (x, y) = (w.r.digits(i), w.r.digits(j));
                let Some(p) = build(code, &n, Some(&x).filter(|_| w.r.chance(1, 2)).map(|x| x.as_str()), Some(&y).filter(|_| w.r.chance(1, 2)).map(|x| x.as_str())) else { continue };
                let p = sourced(p, &mut w.r);
                w.eval(&format!("{code}/{n}"));
                let Some(s) = w.op(&format!("E.164 of +{code} {n}"), || print(p.format())) else { return };
                let t = w.op(&format!("string of +{code} {n}"), || p.to_string());
                w.check(s == Some(format!("+{code}{n}")) && s == t, || {
                    ("E.164 text is not '+', code and digits".into(), json!({ "number": format!("+{code} {n}"), "got": s }))
                });
                // Whatever width or precision is asked for, no digit goes or comes.
                let odd = w.op(&format!("string of +{code} {n} with a width and precision"), || {
                    [format!("{p:.4}"), format!("{p:>30.2}"), format!("{p:030}"), format!("{p:#}")].map(|s| s.trim().to_string())
                });
                w.check(odd.is_some_and(|o| o.iter().all(|o| Some(o) == s.as_ref())), || {
                    ("E.164 text depends on a width or precision".into(), json!({ "number": format!("+{code} {n}"), "expected": s }))
                });
                let first = seen.entry(s).or_insert_with(|| n.clone()).clone();
                w.check(first == n, || ("two numbers have the same E.164 text".into(), json!([first, n])));
            }
        }
    });
}

pub fn c14(ctx: &Ctx) {
    ctx.rule(
        "numbers sampled for every territory, type and possible length, with and without extension; the international \
         and RFC 3966 texts parsed without a hint, in the own region and in random regions. Distinct by (hint, text).",
    );
    each(ctx, ctx.quick_or(20, 400), |w, t, p| {
        for (name, mode) in [("international", Mode::International), ("RFC 3966", Mode::Rfc3966)] {
            let Some(Some(s)) = w.op(&format!("{name} of {:?}", num(p)), || print(p.format().mode(mode))) else { return };
            for h in hints(w, t) {
                back(w, p, &s, h, name);
            }
        }
    });
}

pub fn c15(ctx: &Ctx) {
    ctx.rule(
        "numbers sampled for every territory, type and possible length, with and without extension and carrier code; the national text \
         parsed in the number's region. Distinct by (region, text).",
    );
    each(ctx, ctx.quick_or(40, 800), |w, _, p| {
        let n = num(p);
        let Some(r) = env().m.region(n.code, &n.nsn) else { return };
        let Some(h) = own(r) else { return };
        let Some(Some(s)) = w.op(&format!("national text of {n:?}"), || print(p.format().mode(Mode::National))) else { return };
        back(w, p, &s, Some(h), "national");
        // The same number dialled through a carrier.
        let e = env();
        let Some(np) = e.m.terrs.iter().position(|t| t.id == r.id).and_then(|i| e.np[i].as_ref()) else { return };
        for _ in 0..2 {
            let dialled = format!("{}{}", from_pattern(np, &mut w.r), n.nsn);
            let Some(c) = e.m.parse(Some(h.0), &dialled).filter(|m| m.nsn == n.nsn).and_then(|m| m.carrier) else { continue };
            let Some(p) = build(n.code, &n.nsn, n.ext.as_deref(), Some(&c)) else { continue };
            let Some(Some(s)) = w.op(&format!("national text of {:?}", num(&p)), || print(p.format().mode(Mode::National))) else { return };
            back(w, &p, &s, Some(h), "national");
        }
    });
}
