"""Planted bugs, first batch. See mkbug.py."""
BUGS = {}

def bug(id, property, needs, breaks, edits, demo):
    BUGS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)

XML = r'''
#[allow(dead_code)]
fn shipped() -> String {
    std::fs::read_to_string(concat!(env!("CARGO_MANIFEST_DIR"), "/xml")).unwrap()
}
#[allow(dead_code)]
fn doc(territories: &str) -> String {
    format!("<phoneNumberMetadata><territories>{territories}</territories></phoneNumberMetadata>")
}
'''

bug("region-cache-ignores-database", "C09",
    "two databases used one after the other on the same number",
    "the region of a number is remembered per thread without the database it was looked up in",
    [("src/validator.rs", '''    let regions = database.region(&code)?;
    if regions.len() == 1 {
        return if''', '''    // Numbers are usually asked about several times in a row.
    thread_local! {
        static LAST: std::cell::RefCell<Option<(u16, String, Option<Either<country::Id, u16>>)>> =
            const { std::cell::RefCell::new(None) };
    }

    LAST.with(|last| {
        let mut last = last.borrow_mut();
        match &*last {
            Some((c, n, region)) if *c == code && n == national => *region,
            _ => {
                let region = source_in(database, code, national);
                *last = Some((code, national.to_owned(), region));
                region
            }
        }
    })
}

fn source_in(database: &Database, code: u16, national: &str) -> Option<Either<country::Id, u16>> {
    let regions = database.region(&code)?;
    if regions.len() < 2 {
        return if''')],
    r'''
use phonenumber::metadata::Database;
fn doc(id: &str) -> String {
    format!("<phoneNumberMetadata><territories><territory id=\"{id}\" countryCode=\"7\"><generalDesc><nationalNumberPattern>\\d{{10}}</nationalNumberPattern></generalDesc><mobile><nationalNumberPattern>9\\d{{9}}</nationalNumberPattern></mobile></territory></territories></phoneNumberMetadata>")
}
fn main() {
    let a = Database::parse(doc("RU")).unwrap();
    let b = Database::parse(doc("KZ")).unwrap();
    let n = phonenumber::parse(None, "+79123456789").unwrap();
    assert_eq!(n.metadata(&a).map(|m| m.id().to_string()), Some("RU".into()));
    assert_eq!(n.metadata(&b).map(|m| m.id().to_string()), Some("KZ".into()));
    assert!(n.is_valid_with(&b));
}
''')

bug("vanity-flag-shared", "C24",
    "two threads parsing at the same time, one of them a vanity number",
    "whether letters count as digits is kept in a shared flag between the test and its use",
    [("src/parser/helper.rs", '''    let mappings: &FnvHashMap<char, char> = if consts::VALID_ALPHA_PHONE.is_match(&number.national)
    {
        &consts::ALPHA_PHONE_MAPPINGS
    } else {
        &consts::ASCII_MAPPINGS
    };
''', '''    consts::VANITY.store(
        consts::VALID_ALPHA_PHONE.is_match(&number.national),
        std::sync::atomic::Ordering::SeqCst,
    );
'''),
     ("src/parser/helper.rs", '''        return normalize(number, mappings);
    }''', '''        return normalize(number, mappings());
    }'''),
     ("src/parser/helper.rs", '''        number.national = trim(number.national, start);
        number = normalize(number, mappings);
''', '''        number.national = trim(number.national, start);
        number = normalize(number, mappings());
'''),
     ("src/parser/helper.rs", '''        number.country = country::Source::Default;
        number = normalize(number, mappings);
    }
''', '''        number.country = country::Source::Default;
        number = normalize(number, mappings());
    }
'''),
     ("src/parser/helper.rs", '''/// Strip national prefix and extract carrier.
''', '''/// The characters that count as digits in the number at hand.
fn mappings() -> &'static FnvHashMap<char, char> {
    if consts::VANITY.load(std::sync::atomic::Ordering::SeqCst) {
        &consts::ALPHA_PHONE_MAPPINGS
    } else {
        &consts::ASCII_MAPPINGS
    }
}

/// Strip national prefix and extract carrier.
'''),
     ("src/consts.rs", '''pub const NP: &str = "$NP";''', '''/// Whether letters count as digits.
pub static VANITY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub const NP: &str = "$NP";''')],
    r'''
fn main() {
    let want = phonenumber::parse(None, "+1 800 3569377").unwrap();
    let _ = phonenumber::parse(None, "+1 650 253 0000");
    let stop = std::sync::atomic::AtomicBool::new(false);
    let mut bad = 0;
    std::thread::scope(|s| {
        for _ in 0..3 {
            s.spawn(|| while !stop.load(std::sync::atomic::Ordering::Relaxed) {
                let _ = phonenumber::parse(None, "+1 650 253 0000");
            });
        }
        for _ in 0..200_000 {
            if phonenumber::parse(None, "+1 800 FLOWERS").ok().as_ref() != Some(&want) { bad += 1; break }
        }
        stop.store(true, std::sync::atomic::Ordering::Relaxed);
    });
    assert_eq!(bad, 0);
}
''')

bug("idd-short-panic", "C01",
    "an international prefix followed by exactly two digits that begin no one- or two-digit calling code",
    "the length guard before the calling code is one short, so the search for a code slices past the end",
    [("src/parser/helper.rs", "if number.national.len() <= consts::MIN_LENGTH_FOR_NSN {", "if number.national.len() < consts::MIN_LENGTH_FOR_NSN {")],
    r'''
fn main() {
    assert!(phonenumber::parse(None, "0021").is_err());
}
''')

bug("carrier-without-rule", "C03",
    "a number with a carrier whose national format has no carrier rule, printed in national form",
    "formatting fails instead of falling back to the national prefix rule",
    [("src/formatter.rs", '''                    let carrier = self
                        .number
                        .carrier()
                        .and_then(|c| formatter.domestic_carrier().map(|f| (c, f)));
''', '''                    let carrier = match self.number.carrier() {
                        Some(c) => Some((c, formatter.domestic_carrier().ok_or(fmt::Error)?)),
                        None => None,
                    };
''')],
    r'''
use std::fmt::Write;
fn main() {
    let n = phonenumber::parse(None, "+1 650 253 0000").unwrap();
    let mut v = serde_json::to_value(&n).unwrap();
    v["carrier"] = serde_json::json!("12");
    let n: phonenumber::PhoneNumber = serde_json::from_value(v).unwrap();
    let mut s = String::new();
    assert!(write!(s, "{}", n.format().mode(phonenumber::Mode::National)).is_ok());
    assert_eq!(s, "(650) 253-0000");
}
''')

bug("eighteen-digits", "C04",
    "a number of exactly 18 national digits with leading zeros",
    "the limit on the length of a national number is off by one",
    [("src/parser/mod.rs", "if number.national.len() > consts::MAX_LENGTH_FOR_NSN {", "if number.national.len() > consts::MAX_LENGTH_FOR_NSN + 1 {")],
    r'''
fn main() {
    assert!(phonenumber::parse(None, "+39012345678901234567").is_err());
    assert!(phonenumber::parse(None, "+39001234567890123456").is_err());
    assert!(phonenumber::parse(None, "+3900123456789012345").is_ok());
}
''')

bug("territory-optional-prefix", "C07",
    "a format without a rule of its own in a territory whose national prefix is optional",
    "the territory's nationalPrefixOptionalWhenFormatting is not passed on where a format has a national prefix rule of its own",
    [("src/metadata/loader.rs", '''            ("nationalPrefixFormattingRule", value) => {
                format.national_prefix_formatting_rule = Some(value.into())
            }
''', '''            ("nationalPrefixFormattingRule", value) => {
                format.national_prefix_formatting_rule = Some(value.into());
                format.national_prefix_optional_when_formatting = false
            }
''')],
    r'''
use phonenumber::metadata::Database;
fn main() {
    let db = Database::parse("<phoneNumberMetadata><territories><territory id=\"BR\" countryCode=\"55\" nationalPrefixOptionalWhenFormatting=\"true\"><availableFormats><numberFormat nationalPrefixFormattingRule=\"$FG\" pattern=\"(\\d)(\\d)\"><format>$1 $2</format></numberFormat></availableFormats><generalDesc><nationalNumberPattern>\\d{10}</nationalNumberPattern></generalDesc></territory></territories></phoneNumberMetadata>").unwrap();
    assert!(db.by_id("BR").unwrap().formats()[0].is_national_prefix_optional());
    // Some of the shipped formats too.
    let d = &phonenumber::metadata::DATABASE;
    let n: usize = d.iter().flat_map(|m| m.formats()).filter(|f| f.is_national_prefix_optional() && f.national_prefix().is_some()).count();
    println!("{n}");
}
''')

bug("main-region-order", "C06",
    "a main region that does not come first in the document",
    "the regions of a shared calling code are listed in document order, no longer in that of the entries",
    [("src/metadata/database.rs", '''                by_code.insert(0, meta.clone());
                regions.insert(0, meta.id.clone())''', '''                by_code.insert(0, meta.clone());
                regions.push(meta.id.clone())''')],
    r'''
fn main() {
    let d = &phonenumber::metadata::DATABASE;
    for c in [1u16, 7, 44, 39] {
        let a: Vec<String> = d.by_code(&c).unwrap().iter().map(|m| m.id().to_string()).collect();
        let b: Vec<String> = d.region(&c).unwrap().iter().map(|m| m.to_string()).collect();
        assert_eq!(a, b);
    }
}
''')

bug("intl-format-same", "C07",
    "a territory in which one format has an international form and another has an explicit one equal to its national form",
    "an international format equal to the national one is taken for the absence of one",
    [("src/metadata/loader.rs", '''                    if text == "NA" {
                        international = None;''', '''                    if text == "NA" || format.format.as_ref() == Some(&text) {
                        international = None;''')],
    r'''
use phonenumber::metadata::Database;
fn main() {
    let db = Database::parse("<phoneNumberMetadata><territories><territory id=\"BR\" countryCode=\"55\"><availableFormats><numberFormat pattern=\"(\\d)(\\d)\"><format>$1 $2</format><intlFormat>$1 $2</intlFormat></numberFormat><numberFormat pattern=\"(\\d)(\\d\\d)\"><format>$1 $2</format><intlFormat>$1-$2</intlFormat></numberFormat></availableFormats><generalDesc><nationalNumberPattern>\\d{10}</nationalNumberPattern></generalDesc></territory></territories></phoneNumberMetadata>").unwrap();
    assert_eq!(db.by_id("BR").unwrap().international_formats().len(), 2);
}
''')

bug("lenient-boolean", "C08",
    "a malformed boolean in a territory's mobileNumberPortableRegion",
    "any text that is not 'true' is taken for false instead of being reported",
    [("src/metadata/loader.rs", '''("mobileNumberPortableRegion", value) => meta.mobile_number_portable = value.parse()?,''', '''("mobileNumberPortableRegion", value) => meta.mobile_number_portable = value == "true",''')],
    r'''
use phonenumber::metadata::Database;
fn main() {
    let t = |v: &str| Database::parse(format!("<phoneNumberMetadata><territories><territory id=\"BR\" countryCode=\"55\" mobileNumberPortableRegion=\"{v}\"><generalDesc><nationalNumberPattern>\\d{{10}}</nationalNumberPattern></generalDesc></territory></territories></phoneNumberMetadata>"));
    assert!(t("true").unwrap().by_id("BR").unwrap().is_mobile_number_portable());
    assert!(!t("false").unwrap().by_id("BR").unwrap().is_mobile_number_portable());
    assert!(t("yes").is_err());
}
''')

bug("truncated-after-territories", "C08",
    "a document cut off between its last territory and the end of the root element",
    "the end of the input is taken for the end of the document once territories have been read",
    [("src/metadata/loader.rs", '''            Event::End(ref e) if e.name().into_inner() == b"phoneNumberMetadata" => {
                return Ok(result);
            }
''', '''            Event::End(_) => return Ok(result),

            Event::Eof if !result.is_empty() => return Ok(result),
''')],
    r'''
use phonenumber::metadata::Database;
fn main() {
    let s = "<phoneNumberMetadata><territories><territory id=\"BR\" countryCode=\"55\"><generalDesc><nationalNumberPattern>\\d{10}</nationalNumberPattern></generalDesc></territory></territories></phoneNumberMetadata>";
    assert!(Database::parse(s).is_ok());
    for i in 0..s.len() { assert!(Database::parse(&s[..i]).is_err(), "{}", &s[..i]); }
}
''')

bug("entity-from-bundled", "C09",
    "a database in which a non-geographical entity differs from the bundled one",
    "validity of numbers of non-geographical entities is looked up in the bundled database",
    [("src/validator.rs", '''            Left(region) => database.by_id(region.as_ref()),
            Right(code) => database.by_code(&code).and_then(|m| m.into_iter().next()),
        })
        .map(|meta|''', '''            Left(region) => database.by_id(region.as_ref()),
            Right(code) => DATABASE.by_code(&code).and_then(|m| m.into_iter().next()),
        })
        .map(|meta|''')],
    r'''
use phonenumber::metadata::Database;
fn main() {
    let db = Database::parse("<phoneNumberMetadata><territories><territory id=\"001\" countryCode=\"800\"><generalDesc><nationalNumberPattern>9\\d{3}</nationalNumberPattern></generalDesc><tollFree><nationalNumberPattern>9\\d{3}</nationalNumberPattern></tollFree></territory></territories></phoneNumberMetadata>").unwrap();
    let n = phonenumber::parse_with(&db, None, "+8009123").unwrap();
    assert!(n.is_valid_with(&db));
    assert!(!n.is_valid());
}
''')

bug("lengths-as-range", "C10",
    "a number whose length lies between possible lengths and whose digits match the pattern anyway",
    "possible lengths are taken for a range from the shortest to the longest",
    [("src/metadata/descriptor.rs", '''        if !self.possible_length.is_empty() && !self.possible_length.contains(&(value.len() as u16))
        {
            return false;
        }
''', '''        if let (Some(&min), Some(&max)) = (self.possible_length.first(), self.possible_length.last())
            && !(min..=max).contains(&(value.len() as u16))
        {
            return false;
        }
''')],
    r'''
use phonenumber::metadata::Database;
fn main() {
    let db = Database::parse("<phoneNumberMetadata><territories><territory id=\"BR\" countryCode=\"55\"><generalDesc><nationalNumberPattern>\\d+</nationalNumberPattern></generalDesc><mobile><possibleLengths national=\"6,9\"/><nationalNumberPattern>\\d+</nationalNumberPattern></mobile></territory></territories></phoneNumberMetadata>").unwrap();
    for (n, ok) in [("123456", true), ("1234567", false), ("123456789", true), ("12345", false)] {
        let p = phonenumber::parse_with(&db, None, format!("+55{n}")).unwrap();
        assert_eq!(p.is_valid_with(&db), ok, "{n}");
    }
}
''')

bug("type-precedence", "C11",
    "a number that fits both the personal and the VoIP description",
    "personal numbers are tested before VoIP numbers",
    [("src/validator.rs", '''        .voip
        .as_ref()
        .map(|d| d.is_match(value))
        .unwrap_or(false)
    {
        return Type::Voip;
    }
''', '''        .personal_number
        .as_ref()
        .map(|d| d.is_match(value))
        .unwrap_or(false)
    {
        return Type::PersonalNumber;
    }
'''), ("src/validator.rs", '''        .personal_number
        .as_ref()
        .map(|d| d.is_match(value))
        .unwrap_or(false)
    {
        return Type::PersonalNumber;
    }

    if meta
        .descriptors
        .pager
''', '''        .voip
        .as_ref()
        .map(|d| d.is_match(value))
        .unwrap_or(false)
    {
        return Type::Voip;
    }

    if meta
        .descriptors
        .pager
''')],
    r'''
use phonenumber::metadata::Database;
fn main() {
    let db = Database::parse("<phoneNumberMetadata><territories><territory id=\"BR\" countryCode=\"55\"><generalDesc><nationalNumberPattern>\\d+</nationalNumberPattern></generalDesc><voip><nationalNumberPattern>9\\d+</nationalNumberPattern></voip><personalNumber><nationalNumberPattern>90\\d+</nationalNumberPattern></personalNumber></territory></territories></phoneNumberMetadata>").unwrap();
    let p = phonenumber::parse_with(&db, None, "+55901234").unwrap();
    assert_eq!(p.number_type_with(&db), phonenumber::Type::Voip);
}
''')

bug("leading-digits-anywhere", "C12",
    "a number of a shared calling code that contains another region's leading digits further on",
    "the leading digits of a region may stand anywhere in the number",
    [("src/validator.rs", '''            if let Some(index) = pattern.find(national) {
                if index.start() == 0 {
                    return region.parse().ok().map(Left);
                }
            }''', '''            if pattern.is_match(national) {
                return region.parse().ok().map(Left);
            }''')],
    r'''
fn main() {
    // 2684 is Antigua's area code, here in the middle of a Californian number.
    let p = phonenumber::parse(None, "+16502684123").unwrap();
    assert_eq!(p.country().id().unwrap(), Some(phonenumber::country::US));
    let p = phonenumber::parse(None, "+12684641234").unwrap();
    assert_eq!(p.country().id().unwrap(), Some(phonenumber::country::AG));
}
''')

bug("sixteen-zeros", "C22",
    "a national number with sixteen or more leading zeros",
    "the count of leading zeros is cut to four bits when printing",
    [("src/national_number.rs", "for _ in 0..self.zeros() {", "for _ in 0..(self.zeros() & 0x0f) {")],
    r'''
use phonenumber::NationalNumber;
fn main() {
    for z in 0..=255u8 {
        let n = NationalNumber::new(7, z).unwrap();
        assert_eq!(n.to_string(), format!("{}7", "0".repeat(z as usize)));
    }
}
''')

bug("extension-as-integer", "C14",
    "an extension with leading zeros, printed as RFC 3966",
    "the extension is printed as an integer",
    [("src/formatter.rs", '''                    write!(f, ";ext={}", ext)?;''', '''                    match ext.parse::<u32>() {
                        Ok(ext) => write!(f, ";ext={}", ext)?,
                        Err(_) => write!(f, ";ext={}", ext)?,
                    }''')],
    r'''
fn main() {
    let p = phonenumber::parse(None, "+1 650 253 0000 ext. 0012").unwrap();
    let s = p.format().mode(phonenumber::Mode::Rfc3966).to_string();
    assert_eq!(phonenumber::parse(None, &s).unwrap(), p);
}
''')

bug("prefix-only-once", "C15",
    "a national number formatted by a rule that puts the national prefix in front of digits that begin with it",
    "the national prefix is left out of national text if the number begins with the same digits",
    [("src/formatter.rs", '''                    } else if let Some(prefix) = formatter.national_prefix() {
''', '''                    } else if let Some(prefix) = formatter
                        .national_prefix()
                        .filter(|_| meta.national_prefix().is_none_or(|p| !national.starts_with(p)))
                    {
''')],
    r'''
use phonenumber::metadata::DATABASE;
fn main() {
    // Every example, and what comes back from its national text.
    let mut bad = vec![];
    for m in DATABASE.iter() {
        let Ok(id) = m.id().parse::<phonenumber::country::Id>() else { continue };
        let Some(np) = m.national_prefix() else { continue };
        let d = m.descriptors();
        for e in [d.fixed_line(), d.mobile(), d.toll_free(), d.premium_rate(), d.uan(), d.shared_cost(), d.voip(), d.personal_number()].into_iter().flatten() {
            let Some(x) = e.example() else { continue };
            if !x.starts_with(np) { continue }
            let p = phonenumber::parse(None, format!("+{}{x}", m.country_code())).unwrap();
            if !p.is_valid() || p.national().to_string() != x { continue }
            let s = p.format().mode(phonenumber::Mode::National).to_string();
            if phonenumber::parse(Some(id), &s).ok().as_ref() != Some(&p) { bad.push((m.id().to_string(), x.to_string(), s)); }
        }
    }
    println!("{bad:?}");
    let known: Vec<&str> = include_str!("main.rs").lines().filter_map(|l| l.strip_prefix("// known ")).collect();
    bad.retain(|b| !known.contains(&b.0.as_str()));
    assert!(bad.is_empty());
}
''')

bug("separator-dot", "C16",
    "a number whose international format contains a separator that is a full stop",
    "full stops are not turned into RFC 3966 separators",
    [("src/consts.rs", r'''pub static SEPARATOR_PATTERN: Lazy<Regex> =
    Lazy::new(|| Regex::new(&format!("[{}]+", VALID_PUNCTUATION)).unwrap());''', r'''pub static SEPARATOR_PATTERN: Lazy<Regex> =
    Lazy::new(|| Regex::new(r"[-x\x{2010}-\x{2015} \x{A0}()\[\]/~]+").unwrap());''')],
    r'''
use phonenumber::metadata::Database;
fn main() {
    let db = Database::parse("<phoneNumberMetadata><territories><territory id=\"BR\" countryCode=\"55\"><availableFormats><numberFormat pattern=\"(\\d)(\\d+)\"><format>$1.$2</format></numberFormat></availableFormats><generalDesc><nationalNumberPattern>\\d+</nationalNumberPattern></generalDesc></territory></territories></phoneNumberMetadata>").unwrap();
    let p = phonenumber::parse_with(&db, None, "+55901234").unwrap();
    assert_eq!(p.format_with(&db).mode(phonenumber::Mode::Rfc3966).to_string(), "tel:+55-9-01234");
}
''')
