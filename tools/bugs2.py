"""Planted bugs, second batch. See mkbug.py."""
BUGS = {}

def bug(id, property, needs, breaks, edits, demo):
    BUGS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)

bug("attribute-unwrap", "C02",
    "a document in which an element inside an ignored or unknown part has a name that is not UTF-8",
    "the name of an unknown element is unwrapped",
    [("src/metadata/loader.rs", '''                    return Err(error::Metadata::UnhandledElement {
                        phase: "territory".into(),
                        name: str::from_utf8(name)?.into(),
                    }
                    .into());''', '''                    return Err(error::Metadata::UnhandledElement {
                        phase: "territory".into(),
                        name: str::from_utf8(name).unwrap().into(),
                    }
                    .into());''')],
    r'''
fn main() {
    let d = b"<phoneNumberMetadata><territories><territory id=\"BR\" countryCode=\"55\"><a\xff\xfe></a\xff\xfe></territory></territories></phoneNumberMetadata>";
    assert!(phonenumber::metadata::loader::load(&d[..]).is_err());
}
''')

bug("e164-of-zeros", "C13",
    "a number with more than one leading zero, printed as E.164",
    "E.164 text keeps only one leading zero",
    [("src/formatter.rs", '''                write!(f, "+{}{}", self.number.country().code(), national)?;''', '''                let value = self.number.national();
                write!(f, "+{}", self.number.country().code())?;
                write!(f, "{}{}", if value.zeros() > 0 { "0" } else { "" }, value.value())?;''')],
    r'''
fn main() {
    for s in ["+390236618300", "+3900236618300", "+39000236618300", "+16502530000"] {
        let p = phonenumber::parse(None, s).unwrap();
        assert_eq!(p.to_string(), s);
    }
}
''')

bug("formats-list-per-mode", "C17",
    "RFC 3966 text of a number of a region whose international formats group differently from its national ones",
    "RFC 3966 text is grouped by the national formats",
    [("src/formatter.rs", "if meta.international_formats().is_empty() || self.mode == Mode::National {", "if meta.international_formats().is_empty() || self.mode != Mode::International {")],
    r'''
use phonenumber::{metadata::DATABASE, Mode};
fn main() {
    let mut n = 0;
    for m in DATABASE.iter() {
        let d = m.descriptors();
        for e in [d.fixed_line(), d.mobile(), d.toll_free(), d.uan()].into_iter().flatten() {
            let Some(x) = e.example() else { continue };
            let p = phonenumber::parse(None, format!("+{}{x}", m.country_code())).unwrap();
            let a = p.format().mode(Mode::International).to_string();
            let b = p.format().mode(Mode::Rfc3966).to_string();
            let split = |s: &str| s.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(str::to_string).collect::<Vec<_>>();
            assert_eq!(split(&a), split(&b), "{a} {b}");
            n += 1;
        }
    }
    assert!(n > 500);
}
''')

bug("hint-of-same-code", "C18",
    "a number with a plus sign and a hint that shares its calling code but is another region",
    "the hint's rules are used for a number with a plus sign when the calling codes agree",
    [("src/parser/mod.rs", '''        && matches!(
            number.country,
            country::Source::Default | country::Source::Number
        ) {''', '''        && (matches!(
            number.country,
            country::Source::Default | country::Source::Number
        ) || database.by_id(country.as_ref()).is_some_and(|m| {
            Some(&*m.country_code.to_string()) == number.prefix.as_deref()
        })) {''')],
    r'''
use phonenumber::country;
fn main() {
    for s in ["+1 4641234", "+1 7654321", "+1 2684641234", "+1 16502530000", "+44 0 1481 960194", "+7 8 800 1234567"] {
        let a = phonenumber::parse(None, s).ok();
        for h in [country::AG, country::US, country::CA, country::DM, country::JM, country::GB, country::GG, country::RU, country::KZ] {
            assert_eq!(phonenumber::parse(Some(h), s).ok(), a, "{s} {h:?}");
        }
    }
}
''')

bug("idd-after-zero", "C19",
    "a number dialled with an international prefix that also matches further on, after other digits",
    "an international prefix is looked for anywhere in the number",
    [("src/parser/helper.rs", '''        if start == 0 && !number.national[end..].starts_with('0') {''', '''        if start <= 1 && !number.national[end..].starts_with('0') {''')],
    r'''
use phonenumber::country;
fn main() {
    // Area code 0011... : a German number that has 00 after its first digit.
    for (h, s, code, n) in [
        (country::DE, "30012345", 49u16, "30012345"),
        (country::US, "2011234567", 1, "2011234567"),
        (country::DE, "70049123456", 49, "70049123456"),
    ] {
        let p = phonenumber::parse(Some(h), s).unwrap();
        assert_eq!((p.code().value(), p.national().to_string()), (code, n.to_string()));
        assert_eq!(p.code().source(), country::Source::Default);
    }
}
''')

bug("oriya-one", "C20",
    "the digit one of the Oriya script",
    "the Oriya digit one is read as seven",
    [("src/parser/helper.rs", "'১' | '੧' | '૧' | '୧' | '௧'", "'১' | '੧' | '૧' | '௧'"),
     ("src/parser/helper.rs", "'৭' | '੭' | '૭' | '୭' | '௭'", "'৭' | '੭' | '૭' | '୭' | '୧' | '௭'")],
    r'''
fn main() {
    for z in [0x660u32, 0x6F0, 0x7C0, 0x966, 0x9E6, 0xA66, 0xAE6, 0xB66, 0xBE6, 0xC66, 0xCE6, 0xD66, 0xE50, 0xED0, 0xFF10] {
        let s: String = "+16502131479".chars().map(|c| c.to_digit(10).map_or(c, |d| char::from_u32(z + d).unwrap())).collect();
        assert_eq!(phonenumber::parse(None, &s).unwrap().to_string(), "+16502131479", "{z:x}");
    }
}
''')

bug("keypad-q", "C20",
    "a vanity number with a lower case q",
    "the letter q counts as no digit",
    [("src/consts.rs", "    map.insert('q', '7');\n", "")],
    r'''
fn main() {
    let a = phonenumber::parse(None, "+1 800 abcqxyz").unwrap();
    let b = phonenumber::parse(None, "+1 800 2227999").unwrap();
    assert_eq!(a, b);
}
''')

bug("extension-seven", "C21",
    "an extension of exactly seven digits",
    "an extension holds at most six digits",
    [("src/consts.rs", '''format!("({}{{0,7}})", DIGITS)''', '''format!("({}{{0,6}})", DIGITS)''')],
    r'''
fn main() {
    for n in 1..=7 {
        let x = &"1234567"[..n];
        let p = phonenumber::parse(None, format!("+1 650 253 0000 ext. {x}")).unwrap();
        assert_eq!(p.extension().map(|e| e.to_string()).as_deref(), Some(x));
        assert_eq!(p.national().to_string(), "6502530000");
    }
}
''')

bug("hash-of-source", "C23",
    "two equal numbers whose calling codes were inferred differently, as keys of a hash map",
    "the hash of a calling code includes how it was inferred",
    [("src/country.rs", "        self.value.hash(state)", "        self.value.hash(state);\n        self.source.hash(state)")],
    r'''
use std::collections::HashSet;
fn main() {
    let a = phonenumber::parse(None, "+16502530000").unwrap();
    let b = phonenumber::parse(Some(phonenumber::country::US), "6502530000").unwrap();
    assert_eq!(a, b);
    assert_eq!(HashSet::from([a, b]).len(), 1);
}
''')

bug("source-not-serialised", "C23",
    "serialising a number whose calling code was inferred from an international prefix",
    "a code source is read back as the default one",
    [("src/country.rs", '''    /// The source from which the country code is derived.
    pub(crate) source: Source,''', '''    /// The source from which the country code is derived.
    #[serde(skip_deserializing)]
    pub(crate) source: Source,''')],
    r'''
fn main() {
    for s in ["+16502530000", "0016502530000"] {
        let a = phonenumber::parse(None, s).unwrap();
        let b: phonenumber::PhoneNumber = serde_json::from_str(&serde_json::to_string(&a).unwrap()).unwrap();
        assert_eq!(a, b);
        assert_eq!(a.code().source(), b.code().source());
    }
}
''')

bug("normalize-quadratic", "C25",
    "a long text of which only the first few characters are digits, the others other scripts' digits or punctuation",
    "normalising inserts each digit by building the string anew",
    [("src/parser/helper.rs", '''                    for (_, ch) in chars.by_ref() {
                        if let Some(ch) = ch.as_dec_digit() {
                            string.push(ch);
                        } else if let Some(&ch) = mappings.get(&ch) {
                            string.push(ch);
                        }
                    }
''', '''                    for (_, ch) in chars.by_ref() {
                        let mapped = ch.as_dec_digit().or_else(|| mappings.get(&ch).copied());
                        string = string.chars().chain(mapped).collect();
                    }
''')],
    r'''
use std::time::Instant;
fn main() {
    let t = |n: usize| {
        let s = format!("650-{}", "1".repeat(n));
        let t = Instant::now();
        let _ = phonenumber::parse(Some(phonenumber::country::US), &s);
        t.elapsed().as_secs_f64()
    };
    t(1000);
    let a = (0..3).map(|_| t(2_000)).fold(f64::MAX, f64::min);
    let b = (0..3).map(|_| t(64_000)).fold(f64::MAX, f64::min);
    println!("{a} {b}");
    assert!(b < a * 32.0 * 6.0);
}
''')

bug("alpha-after-two", "C26",
    "a text with two digits, then letters, then more digits",
    "letters may follow the second digit of a number",
    [("src/parser/valid.rs", '''        count(first_group, 3);
        many0(alt((punctuation, star, digit)));
        many0(alt((punctuation, star, digit, alpha)));''', '''        count(first_group, 2);
        many0(alt((punctuation, star, digit)));
        many0(alt((punctuation, star, digit, alpha)));
        verify(success(()), |_| i.chars().filter(|c| c.as_dec_digit().is_some()).count() > 2);''')],
    r'''
fn main() {
    assert!(!phonenumber::is_viable("12ab34567"));
    assert!(!phonenumber::is_viable("12abc9"));
    assert!(phonenumber::is_viable("123abc"));
    assert!(phonenumber::parse(Some(phonenumber::country::US), "65a0253000").is_err());
}
''')

bug("parameter-dash", "C27",
    "a tel URI with a parameter that has a dash in its name, before the one that matters",
    "parameter names hold letters and digits only",
    [("src/parser/rfc3966.rs", "    c.is_alphanum() || c == '-'\n", "    c.is_alphanum()\n")],
    r'''
fn main() {
    let a = phonenumber::parse(None, "+1 650 253 0000 ext. 12").unwrap();
    assert_eq!(phonenumber::parse(None, "tel:+1-650-253-0000;ext=12").unwrap(), a);
    assert_eq!(phonenumber::parse(None, "tel:+1-650-253-0000;a-b=c;ext=12").unwrap(), a);
}
''')

bug("carrier-all-groups", "C28",
    "a national number with a carrier code in a region whose prefix rule has more groups than one",
    "the last group of the prefix rule is taken for the carrier code",
    [("src/parser/helper.rs", "                c.get(1).map(|m| m.as_str().to_owned()),", "                c.get(2).or_else(|| c.get(1)).map(|m| m.as_str().to_owned()),")],
    r'''
fn main() {
    let p = phonenumber::parse(Some(phonenumber::country::BR), "0 15 11 96123-4567").unwrap();
    assert_eq!(p.national().to_string(), "11961234567");
    assert_eq!(p.carrier().map(|c| c.to_string()).as_deref(), Some("15"));
}
''')

bug("local-lengths-strip", "C28",
    "a national number written with its prefix whose remainder has a length only local numbers have",
    "local-only lengths no longer keep a prefix from being stripped",
    [("src/parser/mod.rs", '''            Validation::TooShort | Validation::IsPossibleLocalOnly | Validation::InvalidLength => {''', '''            Validation::TooShort | Validation::InvalidLength => {''')],
    r'''
use phonenumber::metadata::Database;
fn main() {
    let db = Database::parse("<phoneNumberMetadata><territories><territory id=\"BR\" countryCode=\"55\" nationalPrefix=\"0\"><generalDesc><nationalNumberPattern>\\d+</nationalNumberPattern></generalDesc><fixedLine><possibleLengths national=\"8,9\" localOnly=\"6\"/><nationalNumberPattern>[1-9]\\d+</nationalNumberPattern></fixedLine></territory></territories></phoneNumberMetadata>").unwrap();
    let p = phonenumber::parse_with(&db, Some(phonenumber::country::BR), "0123456").unwrap();
    assert_eq!(p.national().to_string(), "0123456");
    let p = phonenumber::parse_with(&db, Some(phonenumber::country::BR), "012345678").unwrap();
    assert_eq!(p.national().to_string(), "12345678");
}
''')

bug("code-length-two", "C01",
    "a number that ends right after a two-digit text with no known one-digit code",
    "the search for a calling code runs one digit further than the shortest accepted text",
    [("src/parser/helper.rs", "for len in 1..consts::MAX_LENGTH_FOR_COUNTRY_CODE + 1 {", "for len in 1..consts::MAX_LENGTH_FOR_COUNTRY_CODE + 2 {")],
    r'''
fn main() {
    assert!(phonenumber::parse(None, "+210").is_err());
    assert!(phonenumber::parse(None, "+999").is_err());
}
''')

bug("history-of-idd", "C24",
    "a number written with 00 and no hint, parsed before or after another one with a hint of a region with another international prefix",
    "without a hint the international prefix of the last hint is understood too",
    [("src/parser/helper.rs", '''    let fallback = country.is_none().then(|| &*consts::DEFAULT_IDD);

    number = international_prefix(idd.or(fallback), number);
''', '''    static LAST: std::sync::RwLock<Option<Regex>> = std::sync::RwLock::new(None);
    let fallback = if country.is_none() {
        LAST.read().unwrap().clone().or_else(|| Some(consts::DEFAULT_IDD.clone()))
    } else {
        if let Some(idd) = idd {
            LAST.write().unwrap().get_or_insert_with(|| idd.clone());
        }
        None
    };

    number = international_prefix(idd.or(fallback.as_ref()), number);
''')],
    r'''
use phonenumber::country;
fn main() {
    let _ = phonenumber::parse(Some(country::US), "6502530000");
    let p = phonenumber::parse(None, "0032474123456").unwrap();
    assert_eq!(p.code().value(), 32);
    assert!(phonenumber::parse(None, "01132474123456").is_err());
}
''')

bug("length-list-spaces", "C07",
    "a list of possible lengths with a space inside",
    "spaces in length lists are no longer skipped",
    [("src/metadata/loader.rs", '''        for part in value.split(',').map(str::trim) {''', '''        for part in value.split(',').filter(|part| !part.starts_with(' ')) {''')],
    r'''
use phonenumber::metadata::Database;
fn main() {
    let db = Database::parse("<phoneNumberMetadata><territories><territory id=\"BR\" countryCode=\"55\"><generalDesc><nationalNumberPattern>\\d+</nationalNumberPattern></generalDesc><mobile><possibleLengths national=\"6, 9\"/><nationalNumberPattern>\\d+</nationalNumberPattern></mobile></territory></territories></phoneNumberMetadata>").unwrap();
    assert_eq!(db.by_id("BR").unwrap().descriptors().mobile().unwrap().possible_length(), [6, 9]);
}
''')
