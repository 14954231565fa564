//! What operations on numbers cost, and what memory operations leave behind.

use super::multi::{cost_of, growth, live_bytes};
use super::num::{hash_of, print};
use crate::mon::{threads, Ctx, W};
use crate::rng::Rng;
use crate::util::*;
use crate::work::*;
use phonenumber::metadata::{loader, Database, DATABASE};
use phonenumber::{Carrier, Extension, NationalNumber, PhoneNumber};
use serde_json::json;
use std::hint::black_box;

const PARTS: [&str; 3] = ["extension", "carrier", "both"];
const OPS: [&str; 15] = [
    "E164", "International", "Rfc3966", "National", "with a format", "Display", "clone and compare", "hash", "write JSON", "read JSON",
    "postcard", "classify", "Debug", "read a national number", "build parts",
];

/// A number of a code, with an extension and a carrier of any length.
fn long(code: u16, nsn: &str, ext: Option<&str>, carrier: Option<&str>) -> Option<PhoneNumber> {
    let p = phonenumber::parse(None, format!("+{code}{nsn}")).ok()?;
    let mut v = serde_json::to_value(&p).ok()?;
    v["extension"] = json!(ext);
    v["carrier"] = json!(carrier);
    serde_json::from_value(v).ok()
}

fn one_op(op: usize, p: &PhoneNumber, db: &Database, js: &str, s: &str) {
    match op {
        0..=3 => {
            black_box(print(p.format_with(db).mode(MODES[op].1)));
        }
        4 => {
            for f in db.by_code(&p.code().value()).iter().flatten().flat_map(|m| m.formats()).take(2) {
                black_box(print(p.format_with(db).mode(phonenumber::Mode::National).with(f)));
            }
        }
        5 => drop(black_box(p.to_string())),
        6 => {
            let q = p.clone();
            black_box(q == *p);
        }
        7 => drop(black_box(hash_of(p))),
        8 => drop(black_box(serde_json::to_string(p).is_ok())),
        9 => drop(black_box(serde_json::from_str::<PhoneNumber>(js).is_ok())),
        10 => drop(black_box(postcard::to_stdvec(p).ok().and_then(|b| postcard::from_bytes::<PhoneNumber>(&b).ok()))),
        11 => {
            black_box((p.is_valid_with(db), p.number_type_with(db), p.metadata(db).is_some(), p.is_valid(), p.country().id().is_ok()));
        }
        12 => drop(black_box(format!("{p:?}"))),
        13 => drop(black_box((s.parse::<NationalNumber>().is_ok(), s.parse::<phonenumber::country::Id>().is_ok()))),
        _ => drop(black_box((Extension::from(s).to_string(), Carrier::from(s).to_string()))),
    }
}

/// A database in which one part is `n` times there, and the number that goes
/// through all of it.
fn grown(kind: usize, n: usize) -> Option<Database> {
    let general = |p: &str| format!("<generalDesc><nationalNumberPattern>{p}</nationalNumberPattern></generalDesc>");
    let format = |p: &str, l: &str| format!("<numberFormat pattern=\"{p}\">{l}<format>$1 $2</format></numberFormat>");
    let last = format(r"(\d{3})(\d{6})", "");
    let inner = match kind {
        // Territories of one code; the number is of the last.
        0 | 1 => {
            let mut s = String::new();
            for k in 0..n {
                let lead = if kind == 0 { " leadingDigits=\"9\"" } else { "" };
                s += &format!(
                    "<territory id=\"A{k:05}\" countryCode=\"376\"{lead}>{}<fixedLine><nationalNumberPattern>9\\d{{7}}</nationalNumberPattern></fixedLine></territory>",
                    general("\\d+")
                );
            }
            s + &format!("<territory id=\"AD\" countryCode=\"376\" leadingDigits=\"6\">{}<fixedLine><nationalNumberPattern>6\\d{{8}}</nationalNumberPattern></fixedLine></territory>", general("\\d+"))
        }
        // Formats before the one that fits.
        2..=4 => {
            let one = match kind {
                2 => format(r"(\d{2})(\d{3})", ""),
                3 => format(r"(\d{3})(\d{6})", "<leadingDigits>7</leadingDigits>"),
                _ => format(r"(\d{3})(\d{6})", "<leadingDigits>6</leadingDigits><leadingDigits>65</leadingDigits>"),
            };
            format!("<territory id=\"AD\" countryCode=\"376\">{}<availableFormats>{}{last}</availableFormats></territory>", general("\\d+"), one.repeat(n))
        }
        // Leading digits of one format.
        5 => format!(
            "<territory id=\"AD\" countryCode=\"376\">{}<availableFormats>{}</availableFormats></territory>",
            general("\\d+"),
            format(r"(\d{3})(\d{6})", &"<leadingDigits>6</leadingDigits>".repeat(n))
        ),
        // Territories of other codes.
        6 => {
            let mut s = String::new();
            for k in 0..n {
                s += &format!("<territory id=\"A{k:05}\" countryCode=\"{}\">{}</territory>", 1000 + k, general("\\d+"));
            }
            s + &format!("<territory id=\"AD\" countryCode=\"376\">{}</territory>", general("6\\d{8}"))
        }
        // A long format.
        _ => format!(
            "<territory id=\"AD\" countryCode=\"376\" nationalPrefix=\"0\">{}<availableFormats><numberFormat pattern=\"(\\d{{3}})(\\d{{6}})\" nationalPrefixFormattingRule=\"{}\"><format>$1{}$2</format></numberFormat></availableFormats></territory>",
            general("\\d+"),
            "$NP$FG ".repeat(n.min(64)),
            [" - ", "$1 ", "$2-"][kind % 3].repeat(n)
        ),
    };
    Database::parse(format!("<phoneNumberMetadata><territories>{inner}</territories></phoneNumberMetadata>")).ok()
}

const GROWN: [&str; 10] = [
    "territories of a shared code, by leading digits", "territories of a shared code, by type", "formats of other lengths",
    "formats of other leading digits", "formats of longer leading digits", "leading digits", "other codes", "a long format", "a long format",
    "a long format",
];

pub fn c33(ctx: &Ctx) {
    ctx.rule(
        "numbers whose extension or carrier grows (read from JSON), and databases whose shared codes, formats, leading digits or \
         format texts grow; every operation on a number (formatting in each mode, comparing, hashing, serialising, \
         classifying, building) and parsing with them; CPU time and allocated bytes for four times the size may be at most ten \
         and nine times as much (CPU time of databases: sixteen times what is in proportion, over the whole way). Distinct by (family, operation, size).",
    );
    let _ = DATABASE.iter().count();
    let pieces = ["1", "0", "x", "$1", ";ext=1", "\u{E9}", " ", "{}", "$CC", "$NP$FG", "\\", "9-"];
    let top = ctx.quick_or(1 << 19, 1 << 22);
    ctx.par_threads(OPS.len() * pieces.len(), threads().min(4), |w, i| {
        let (op, piece) = (i % OPS.len(), pieces[i / OPS.len()]);
        let (code, nsn) = *w.r.pick(&[(55u16, "11987654321"), (1, "6502530000"), (54, "91187654321"), (39, "0236618300"), (57, "6012345678"), (800, "12345678")]);
        let both = w.r.below(3);
        let about = || json!([format!("+{code} {nsn}"), OPS[op], piece, PARTS[both]]);
        growth(w, &format!("{op}/{piece}"), &about, (1 << 13, top), |w, bytes, runs| {
            let s = piece.repeat(bytes / piece.len());
            let p = long(code, nsn, (both != 1).then_some(&s), (both != 0).then_some(&s))?;
            let js = serde_json::to_string(&p).ok()?;
            cost_of(w, runs, &format!("{} of +{code} {nsn} with {bytes} bytes of {piece:?}", OPS[op]), &mut || {
                // As often as makes the cost of the short ones be seen.
                for _ in 0..8 {
                    one_op(op, &p, &DATABASE, &js, &s);
                }
            })
        });
    });
    let items = ctx.quick_or(1 << 10, 1 << 12);
    ctx.par_threads(GROWN.len() * 3, threads().min(4), |w, i| {
        let (kind, what) = (i % GROWN.len(), i / GROWN.len());
        let names = ["format", "classify", "parse"];
        let top = if kind < 7 { items } else { 1 << 14 };
        let cost = |w: &mut W, n: usize, runs: usize| -> Option<(u64, u64)> {
            let Some(db) = grown(kind, n) else {
                w.fail("a database that grows does not load".into(), json!([GROWN[kind], n]));
                return None;
            };
            let p = phonenumber::parse_with(&db, None, "+376654321987").ok()?;
            let h = id("AD");
            let once = |db: &Database| match what {
                0 => {
                    for (_, m) in MODES {
                        black_box(print(p.format_with(db).mode(m)));
                    }
                }
                1 => {
                    black_box((p.is_valid_with(db), p.number_type_with(db), p.metadata(db).map(|m| m.id())));
                }
                _ => {
                    black_box((phonenumber::parse_with(db, h, "654321987").is_ok(), phonenumber::parse_with(db, None, "+376654321987").is_ok()));
                }
            };
            // Expressions are finished when they are first used.
            w.op(&format!("{} with {n} times {}", names[what], GROWN[kind]), || once(&db));
            cost_of(w, runs, &format!("{} with {n} times {}", names[what], GROWN[kind]), &mut || {
                for _ in 0..4 {
                    once(&db);
                }
            })
        };
        // Thousands of expressions do not fit the caches of a processor, so
        // that steps may be steep; it is the whole way that counts.
        let (low, mut before) = (16, None::<(u64, u64)>);
        let mut n = low;
        while n <= top {
            if w.over() {
                return;
            }
            w.eval(&format!("{kind}/{what}/{n}"));
            let Some(b) = cost(w, n, 4) else { return };
            w.count("sizes of databases");
            w.sample(|| json!({ "family": GROWN[kind], "operation": names[what], "times": n, "cpu_us": b.0 / 1000, "allocated": b.1 }));
            if let Some(a) = before {
                w.check(b.1 <= 9 * a.1.max(4096), || {
                    ("the memory allocated grows faster than the database".into(), json!([GROWN[kind], names[what], n / 4, a.1, n, b.1]))
                });
            }
            let factor = 16 * (n / low) as u64;
            if n > low && b.0 > 1_000_000 {
                let mut seen = vec![];
                for _ in 0..4 {
                    let (Some(a), Some(b)) = (cost(w, low, 8), cost(w, n, 3)) else { return };
                    seen.push((a.0, b.0));
                    if b.0 <= factor * a.0 {
                        break;
                    }
                }
                w.check(seen.iter().any(|(a, b)| *b <= factor * a), || {
                    ("the time taken grows faster than the database".into(), json!([GROWN[kind], names[what], low, n, seen]))
                });
            }
            before = Some(b);
            n *= 4;
        }
    });
}

/// What is done again and again.
const AGAIN: [&str; 18] = [
    "parse numbers without a hint", "parse numbers with a hint", "parse URIs", "parse texts with extensions", "parse what is no number",
    "parse what is too long or of no code", "test viability", "format", "classify", "look regions up", "serialise", "load databases",
    "load records", "load what is no database", "clone databases", "use from threads that end", "parse the same texts of every form",
    "do all with the same numbers",
];

fn again(kind: usize, k: usize, r: &mut Rng, xml: &str) {
    let us = id("US");
    let hints = ["US", "BR", "GB", "DE"];
    let d = r.digits(7);
    match kind {
        0 => drop(black_box(phonenumber::parse(None, format!("+1650{d}")).is_ok())),
        1 => {
            let h = id(hints[k % 4]);
            black_box(phonenumber::parse(h, format!("0{} {d}", k % 90 + 10)).is_ok());
        }
        2 => drop(black_box(phonenumber::parse(None, format!("tel:{d};phone-context=+1{};x={k}", 200 + k % 700)).is_ok())),
        3 => drop(black_box(phonenumber::parse(us, format!("(650) {d} ext. {k}")).is_ok())),
        4 => drop(black_box(phonenumber::parse(us, format!("what {}{k}a", "?".repeat(k % 7))).is_ok())),
        5 => {
            black_box(phonenumber::parse(us, format!("+1{d}{d}{d}{k}")).is_ok());
            black_box(phonenumber::parse(None, d.as_str()).is_ok());
        }
        6 => drop(black_box(phonenumber::is_viable(format!("650 {d} x{k}")))),
        7 | 8 | 10 => {
            let Some(p) = long([1u16, 55, 44, 49][k % 4], &format!("212{d}"), (k % 3 == 0).then_some("12"), (k % 5 == 0).then_some("15")) else {
                return;
            };
            match kind {
                7 => {
                    for (_, m) in MODES {
                        black_box(print(p.format().mode(m)));
                    }
                    black_box(p.to_string());
                }
                8 => drop(black_box((p.is_valid(), p.number_type(), p.country().id().is_ok(), p.metadata(&DATABASE).is_some()))),
                _ => {
                    black_box(serde_json::from_str::<PhoneNumber>(&serde_json::to_string(&p).unwrap()).is_ok());
                    black_box(postcard::to_stdvec(&p).ok().and_then(|b| postcard::from_bytes::<PhoneNumber>(&b).ok()));
                    black_box((hash_of(&p), p.clone() == p, format!("{p:?}")));
                }
            }
        }
        9 => {
            let code = 1 + (k % 999) as u16;
            black_box((DATABASE.by_code(&code).is_some(), DATABASE.region(&code).is_some(), DATABASE.by_id(&format!("{k}")).is_some()));
            black_box(format!("A{k}").parse::<phonenumber::country::Id>().is_ok());
        }
        11 => {
            // Numbers and names that were not there before.
            let s = xml.replace("@", &format!("{}", k % 900 + 1)).replace("#", &d);
            if let Ok(db) = Database::parse(&s) {
                let h = id("AD");
                black_box(phonenumber::parse_with(&db, h, format!("+{}{d}", k % 900 + 1)).map(|p| {
                    for f in db.iter().flat_map(|m| m.formats()) {
                        black_box(print(p.format_with(&db).mode(phonenumber::Mode::National).with(f)));
                    }
                    (print(p.format_with(&db)), p.is_valid_with(&db), p.number_type_with(&db))
                }).is_ok());
            }
        }
        12 => {
            let s = xml.replace("@", &format!("{}", k % 900 + 1)).replace("#", &d);
            black_box(loader::load(s.as_bytes()).ok().map(|r| Database::from(r).is_ok()));
        }
        13 => {
            let s = xml.replace("@", &format!("{}", k % 900 + 1)).replace("#", &d);
            let mut n = (k * 37) % s.len();
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            black_box(Database::parse(&s[..n]).is_ok());
            // Wrong in one way or another.
            let wrong = match k % 8 {
                0 => s.replacen("\\d", "(\\d", 1),
                1 => s.replacen("national=\"", "national=\"x", 1),
                2 => s.replacen("countryCode=\"", "countryCode=\"9999", 1),
                3 => s.replacen(" nationalPrefix=", " nationalPrefixes=", 1),
                4 => s.replacen("<format>", "<format><a/>", 1),
                5 => s.replacen("</fixedLine>", "</mobile>", 1),
                6 => s.replacen("generalDesc>", "otherDesc>", 2),
                _ => s.replacen("id=\"AD\"", "", 1),
            };
            black_box(Database::parse(&wrong).is_ok());
        }
        14 => {
            let db = DATABASE.clone();
            black_box(db.by_id("US").map(|m| m.clone()).is_some());
        }
        16 => {
            // Few territories: the tables of each expression fill up first.
            let e = env();
            let all = ["BR", "AR", "IT", "US"];
            let Some(ti) = e.m.terrs.iter().position(|t| t.id == all[k % 4]) else { return };
            let s = text(e, ti, Some(ti), r);
            black_box(phonenumber::parse(id(all[k % 4]), &s).map(|p| (p.is_valid(), p.to_string())).is_ok());
        }
        17 => {
            let Some(p) = super::num::serialised(r, [1u16, 39, 55, 54][k % 4]) else { return };
            for (_, m) in MODES {
                black_box(print(p.format().mode(m)));
            }
            black_box((p.is_valid(), p.number_type(), p.country().id().is_ok(), p.clone() == p, hash_of(&p)));
        }
        _ => {
            let d = &d;
            std::thread::scope(|s| {
                s.spawn(move || {
                    if let Ok(p) = phonenumber::parse(None, format!("+1650{d}")) {
                        black_box((p.is_valid(), p.to_string(), print(p.format().mode(phonenumber::Mode::National))));
                    }
                });
            });
        }
    }
}

pub fn c34(ctx: &Ctx) {
    ctx.rule(
        "each operation (parsing, formatting, classifying, serialising, loading, cloning, from threads that end) done tens of \
         thousands of times with arguments that never come again (texts of every form: with the same ones), alone in the process; the bytes in use are counted before \
         and behind each of several equal phases after a first one, and must not grow by six bytes or more each time in all of them and then in longer ones. \
         Distinct by (operation, phase).",
    );
    let _ = DATABASE.iter().count();
    let xml = "<phoneNumberMetadata><territories><territory id=\"AD\" countryCode=\"@\" internationalPrefix=\"00\" nationalPrefix=\"0\">\
        <availableFormats><numberFormat pattern=\"(\\d{3})(\\d{4})\"><leadingDigits>#</leadingDigits><format>$1 $2</format></numberFormat></availableFormats>\
        <generalDesc><nationalNumberPattern>\\d{4,9}</nationalNumberPattern></generalDesc>\
        <fixedLine><possibleLengths national=\"[4-9]\"/><exampleNumber>#</exampleNumber><nationalNumberPattern>#|\\d{4,9}</nationalNumberPattern></fixedLine>\
        </territory></territories></phoneNumberMetadata>";
    // One at a time: what other threads hold cannot be told apart.
    ctx.par_threads(AGAIN.len(), 1, |w, kind| {
        let much = match kind {
            9 => 400_000,
            11..=13 => 1_500,
            14 => 2,
            15 => 600,
            _ => 20_000,
        } * ctx.quick_or(1, 8);
        let mut k = 0;
        // Texts of every form fill tables that are large, if bounded: there
        // the same ones come again.
        let same = (kind >= 16).then(|| w.r.clone());
        let phase = |w: &mut W, k: &mut usize, n: usize| {
            let mut r = same.clone().unwrap_or_else(|| w.r.clone());
            let (n, times) = if kind >= 16 { (much / 2, n / (much / 2)) } else { (n, 1) };
            let before = live_bytes();
            w.op(&format!("{} {n} times", AGAIN[kind]), || {
                for _ in 0..times {
                    if let Some(s) = &same {
                        (r, *k) = (s.clone(), 0);
                    }
                    for _ in 0..n {
                        again(kind, *k, &mut r, xml);
                        *k += 1;
                    }
                }
            });
            let n = n * times;
            let grown = live_bytes() - before;
            w.r = r;
            w.evals += n as u64;
            grown
        };
        let first = phase(w, &mut k, much);
        let mut seen = vec![first];
        // Tables that fill up do so sooner or later (those of the regular
        // expressions take tens of thousands of texts), and what is left
        // behind each time has more than a few bytes.
        let floor = |n: usize| (n as i64 * 6).max(512);
        let mut size = much;
        let mut verdict = false;
        for step in 0..6 {
            if w.over() {
                return;
            }
            if step == 3 {
                w.count("phases made longer");
                size *= 3;
            }
            let g = phase(w, &mut k, size);
            seen.push(g);
            w.eval(&format!("{kind}/{step}"));
            w.count("phases");
            if g < floor(size) {
                break;
            }
            verdict = step == 5;
        }
        w.sample(|| json!({ "operation": AGAIN[kind], "times": much, "bytes more in use": seen }));
        w.check(!verdict, || {
            ("memory in use grows with the number of operations".into(), json!({ "operation": AGAIN[kind], "times": k, "bytes more in use by phase": seen }))
        });
    });
}
