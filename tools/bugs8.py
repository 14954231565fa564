"""Planted bugs, eighth batch. See mkbug.py."""
BUGS = {}

def bug(id, property, needs, breaks, edits, demo, plain=False):
    BUGS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, plain=plain)

bug("long-with-zeros", "C04",
    "a number with more than 17 digits of which several are leading zeros",
    "leading zeros are not counted when a number is judged too long",
    [("src/parser/mod.rs", '''    if number.national.len() > consts::MAX_LENGTH_FOR_NSN {''',
      '''    if number.national.trim_start_matches('0').len() > consts::MAX_LENGTH_FOR_NSN {''')],
    r'''
fn main() {
    for (h, t) in [(None, "+39 00 0000 0001 2345 6789"), (Some(phonenumber::country::IT), "000000000000000123456"), (None, "+39 0612345678")] {
        if let Ok(p) = phonenumber::parse(h, t) {
            assert!((2..=17).contains(&p.national().to_string().len()), "{t}: {p}");
        }
    }
}
''')

bug("code-twice", "C18",
    "a number whose calling code is followed by its digits once more, with a region of that code as hint",
    "a calling code written twice is removed twice, but only where a hint names its region",
    [("src/parser/helper.rs", '''                        number.national = trim(number.national, len);
                        number.prefix''', '''                        let prefix = number.national[..len].to_owned();
                        let mut rest = trim(number.national, len);

                        // The code written twice by someone of the region itself.
                        if let Some(meta) = country.and_then(|c| database.by_id(c.as_ref()))
                            && meta.country_code == code
                            && let Some(once) = rest.strip_prefix(prefix.as_str())
                            && !meta.descriptors.general.is_match(&rest)
                            && meta.descriptors.general.is_match(once)
                        {
                            rest = once.to_owned().into();
                        }

                        number.national = rest;
                        number.prefix''')],
    r'''
use phonenumber::country;
fn main() {
    for t in ["+33 33 6 31 96 65 43", "+33 631966543", "+1 1 650 253 0000", "+358358401234567", "+44 44 2070313000"] {
        let p = phonenumber::parse(None, t);
        for h in [country::FR, country::US, country::GB, country::FI] {
            assert_eq!(phonenumber::parse(Some(h), t).map_err(|e| e.to_string()), p.clone().map_err(|e| e.to_string()), "{t} {h:?}");
        }
    }
}
''')

bug("carrier-of-one-digit", "C15",
    "a number with a carrier code of a single digit, printed in national form",
    "carrier codes of one digit are not written",
    [("src/formatter.rs", '''                        .carrier()
                        .and_then(''', '''                        .carrier()
                        .filter(|c| c.len() > 1)
                        .and_then('''),
     ("src/formatter.rs", '''                    if let Some((carrier, format)) = carrier {''', '''                    if let Some((carrier, rule)) = carrier {'''),
     ("src/formatter.rs", '''replace(&national, meta, formatter, Some(format), Some(carrier))''', '''replace(&national, meta, formatter, Some(rule), Some(carrier))''')],
    r'''
use phonenumber::{country::CO, Mode};
fn main() {
    for t in ["0 3 6012345678", "03 601 2345678", "0312345678", "0412345678", "0456 1 2345678", "0312345678", "03 12345678"] {
        let Ok(p) = phonenumber::parse(Some(CO), t) else { continue };
        if p.carrier().is_none() || !p.is_valid() { continue }
        let n = p.format().mode(Mode::National).to_string();
        let m = phonenumber::parse(Some(CO), &n).unwrap();
        println!("{t} {p:?} {n}");
        assert_eq!(m.national(), p.national());
        assert_eq!(m.carrier(), p.carrier(), "{n}");
    }
    let js = r#"{"code":{"value":57,"source":"default"},"national":{"value":12345678},"extension":null,"carrier":"3"}"#;
    let p: phonenumber::PhoneNumber = serde_json::from_str(js).unwrap();
    println!("{}", p.format().mode(Mode::National));
}
''')

bug("trailing-space", "C22",
    "a digit string with white space around its digits, read as a national number",
    "white space around the digits is ignored",
    [("src/national_number.rs", '''        let value = s[zeros..].parse::<u64>()?;''', '''        let value = s[zeros..].trim_end().parse::<u64>()?;''')],
    r'''
use phonenumber::NationalNumber;
fn main() {
    for t in ["12", "012", "12 ", "012\n", "12\u{a0}", " 12", "1 2", "x12"] {
        if let Ok(n) = t.parse::<NationalNumber>() {
            assert_eq!(n.to_string(), t);
        }
    }
}
''')

bug("by-id-scans", "C33",
    "a database in which very many regions share a calling code",
    "the entry of a region is found by looking through all of them, for each region",
    [("src/metadata/database.rs", '''        self.by_id.get(key).map(AsRef::as_ref)
''', '''        self.by_id
            .iter()
            .find(|(id, _)| Borrow::<Q>::borrow(id.as_str_string()) == key)
            .map(|(_, meta)| meta.as_ref())
''')],
    r'''
use std::time::Instant;
use phonenumber::metadata::Database;
fn main() {
    let t = |n: usize| {
        let mut s: String = (0..n).map(|i| format!(r#"<territory id="A{i}" countryCode="376" leadingDigits="9"><generalDesc><nationalNumberPattern>\d+</nationalNumberPattern></generalDesc></territory>"#)).collect();
        s += r#"<territory id="AD" countryCode="376" leadingDigits="6"><generalDesc><nationalNumberPattern>\d+</nationalNumberPattern></generalDesc></territory>"#;
        let d = Database::parse(format!("<phoneNumberMetadata><territories>{s}</territories></phoneNumberMetadata>")).unwrap();
        let p = phonenumber::parse_with(&d, None, "+376654321").unwrap();
        assert_eq!(p.metadata(&d).unwrap().id(), "AD");
        let b = Instant::now();
        for _ in 0..20 {
            assert!(p.metadata(&d).is_some());
        }
        b.elapsed().as_secs_f64()
    };
    t(10);
    let (a, b) = (t(60).max(1e-5), t(4_000));
    assert!(b < 1000.0 * a, "{a} {b}");
}
''')
BUGS["by-id-scans"]["edits"] = [("src/metadata/database.rs", '''        self.by_id.get(key).map(AsRef::as_ref)
''', '''        self.by_id
            .iter()
            .find(|(id, _)| (*id).borrow() == key)
            .map(|(_, meta)| meta.as_ref())
''')]

bug("rfc-extension-cut", "C16",
    "a number with an extension of more than 15 digits, printed as a URI",
    "the URI gives only the first fifteen digits of the extension",
    [("src/formatter.rs", '''write!(f, ";ext={}", ext)?;''', '''write!(f, ";ext={}", ext.get(..15).unwrap_or(ext))?;''')],
    r'''
use phonenumber::{Mode, PhoneNumber};
fn main() {
    for ext in ["1", "1234567", "12345678901234567", "0000000000000000000000000000000000000001"] {
        let js = format!(r#"{{"code":{{"value":1,"source":"plus"}},"national":{{"value":6502530000}},"extension":"{ext}","carrier":null}}"#);
        let p: PhoneNumber = serde_json::from_str(&js).unwrap();
        assert_eq!(p.format().mode(Mode::Rfc3966).to_string(), format!("tel:+1-650-253-0000;ext={ext}"));
    }
}
''')

bug("replaced-everywhere", "C26",
    "a region with a transform rule, whose prefix pattern can match again behind the prefix",
    "the transform rule is applied at every place its pattern matches",
    [("src/parser/helper.rs", '''        let transformed = parsing.replace(&number.national, transform).into_owned();''',
      '''        let transformed = parsing
            .replace_all(&number.national, transform)
            .into_owned();''')],
    r'''
use phonenumber::metadata::Database;
fn main() {
    let d = Database::parse(r#"<phoneNumberMetadata><territories><territory id="AD" countryCode="376" nationalPrefixForParsing="0(\d)" nationalPrefixTransformRule="7$1"><generalDesc><nationalNumberPattern>\d{4,9}</nationalNumberPattern></generalDesc></territory></territories></phoneNumberMetadata>"#).unwrap();
    let p = phonenumber::parse_with(&d, Some(phonenumber::country::AD), "0123 4056").unwrap();
    assert_eq!(p.national().to_string(), "71234056");
}
''')

bug("idd-needs-seven", "C19",
    "a number of fewer than seven digits, its calling code included, behind an international prefix",
    "an international prefix is only taken off when at least seven digits follow it",
    [("src/parser/helper.rs", '''        if start == 0 && !number.national[end..].starts_with('0') {''', '''        if start == 0
            && !number.national[end..].starts_with('0')
            && number.national.len() - end > 6
        {''')],
    r'''
use phonenumber::country;
fn main() {
    for (h, t, e) in [(Some(country::DE), "00 247 8889", "+2478889"), (Some(country::DE), "00 290 8000", "+2908000"),
                      (Some(country::US), "011 290 21234", "+29021234"), (Some(country::DE), "00 683 4002", "+6834002"),
                      (Some(country::DE), "00 672 1234", "+6721234"), (Some(country::DE), "00 500 1234", "+5001234"), (Some(country::DE), "00 49 1151", "+491151"), (Some(country::US), "011 43 1234", "+431234"),
                      (Some(country::US), "011 49 115", "+49115"), (None, "00 49 115", "+49115")] {
        assert_eq!(phonenumber::parse(h, t).map(|p| p.to_string()).ok(), Some(e.to_string()), "{t}");
    }
}
''')

bug("region-id-unwrap", "C03",
    "a database with a region whose ID is not among the known ones",
    "the ID of a calling code's only region is taken to be a known one",
    [("src/validator.rs", '''            match regions[0].parse() {
                Ok(value) => Some(Left(value)),
                Err(_) => None,
            }''', '''            Some(Left(regions[0].parse().expect("the ID of a region")))''')],
    r'''
use phonenumber::metadata::Database;
fn main() {
    let d = Database::parse(r#"<phoneNumberMetadata><territories><territory id="ZZ" countryCode="376"><generalDesc><nationalNumberPattern>\d{4,9}</nationalNumberPattern></generalDesc></territory></territories></phoneNumberMetadata>"#).unwrap();
    let p = phonenumber::parse(None, "+376654321").unwrap();
    let _ = p.is_valid_with(&d);
    let _ = p.metadata(&d);
}
''')

bug("carrier-when-checked", "C28",
    "a build without debug assertions, and a number with a carrier code in a region with a transform rule",
    "the carrier code is set inside a debug assertion, so that builds without them lose it",
    [("src/parser/helper.rs", '''        number.carrier = first
            .filter(|c| groups > 2 && !c.is_empty())
            .map(Into::into);
        number.national = transformed.into();
''', '''        if let Some(carrier) = first.filter(|c| groups > 2 && !c.is_empty()) {
            debug_assert!(number.carrier.replace(carrier.into()).is_none());
        }

        number.national = Cow::Owned(transformed);
''')],
    r'''
fn main() {
    let p = phonenumber::parse(Some(phonenumber::country::BR), "0 21 11 98765 4321").unwrap();
    assert_eq!(p.carrier().map(|c| c.to_string()), Some("21".to_string()), "{p:?}");
}
''', plain=True)

bug("region-by-value", "C12",
    "a number with leading zeros in a region that shares its calling code",
    "the region is looked up by the value of the number, without its leading zeros",
    [("src/phone_number.rs", '''        match validator::source_for(database, self.code.value(), &self.national.to_string())? {''',
      '''        match validator::source_for(database, self.code.value(), &self.national.value().to_string())? {''')],
    r'''
use phonenumber::country;
fn main() {
    let p = phonenumber::parse(None, "+39 06 69812345").unwrap();
    assert_eq!(p.country().id().unwrap(), Some(country::VA), "{p:?}");
    let p = phonenumber::parse(None, "+39 02 36618300").unwrap();
    assert_eq!(p.country().id().unwrap(), Some(country::IT), "{p:?}");
}
''')

bug("document-leaked", "C34",
    "many metadata documents loaded",
    "every document parsed is copied and never freed",
    [("src/metadata/database.rs", '''        Database::from(loader::load(Cursor::new(content.as_ref()))?)''',
      '''        let content: &'static str = content.as_ref().to_owned().leak();

        Database::from(loader::load(Cursor::new(content))?)''')],
    r'''
fn main() {
    let used = || std::fs::read_to_string("/proc/self/statm").unwrap().split(' ').nth(1).unwrap().parse::<usize>().unwrap();
    let text = format!("<a>{}", " ".repeat(100_000));
    let mut last = 0;
    for i in 0..2_000 {
        let _ = phonenumber::metadata::Database::parse(&text);
        if i == 200 { last = used(); }
    }
    assert!(used() < last + 10_000, "{last} {}", used());
}
''')

bug("overflow-of-the-sum", "C10",
    "a build without overflow checks, and a number that is very much longer than the longest possible one",
    "lengths are compared in eight bits",
    [("src/metadata/descriptor.rs", '''        if !self.possible_length.is_empty() && !self.possible_length.contains(&(value.len() as u16))
        {''', '''        if !self.possible_length.is_empty()
            && !self.possible_length.iter().any(|l| *l as u8 == value.len() as u8)
        {''')],
    r'''
use phonenumber::{metadata::Database, PhoneNumber};
fn main() {
    let d = Database::parse(r#"<phoneNumberMetadata><territories><territory id="AD" countryCode="376"><generalDesc><nationalNumberPattern>\d+</nationalNumberPattern></generalDesc><mobile><possibleLengths national="4"/><nationalNumberPattern>\d+</nationalNumberPattern></mobile></territory></territories></phoneNumberMetadata>"#).unwrap();
    // 250 zeros and ten digits.
    let js = format!(r#"{{"code":{{"value":376,"source":"plus"}},"national":{{"value":{}}},"extension":null,"carrier":null}}"#, (250u64 << 56) | 1234567890);
    let p: PhoneNumber = serde_json::from_str(&js).unwrap();
    assert_eq!(p.national().to_string().len(), 260);
    assert!(!p.is_valid_with(&d));
}
''')
del BUGS["overflow-of-the-sum"]["plain"]
BUGS["lengths-in-a-byte"] = BUGS.pop("overflow-of-the-sum")
BUGS["lengths-in-a-byte"]["needs"] = "a number whose many leading zeros make it 256 digits longer than a possible length"
