"""Planted bugs, fourth batch. See mkbug.py."""
BUGS = {}

def bug(id, property, needs, breaks, edits, demo):
    BUGS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)

DOC = r'''
fn doc(t: &str) -> String {
    format!("<phoneNumberMetadata><territories>{t}</territories></phoneNumberMetadata>")
}
fn db(t: &str) -> phonenumber::metadata::Database {
    phonenumber::metadata::Database::parse(doc(t)).unwrap()
}
'''

bug("regions-in-order", "C06",
    "a database in which the main region of a calling code is not the first of the alphabet",
    "the regions of a calling code are listed in alphabetical order, not the main one first as the records are",
    [("src/metadata/database.rs", '''                by_code.insert(0, meta.clone());
                regions.insert(0, meta.id.clone())
            } else {
                by_code.push(meta.clone());
                regions.push(meta.id.clone());
            }''', '''                by_code.insert(0, meta.clone());
            } else {
                by_code.push(meta.clone());
            }

            let at = regions.partition_point(|id| *id < meta.id);
            regions.insert(if meta.main_country_for_code { 0 } else { at.max(1).min(regions.len()) }, meta.id.clone());''')],
    DOC + r'''
fn t(id: &str) -> String {
    format!(r#"<territory id="{id}" countryCode="77"><generalDesc><nationalNumberPattern>1\d{{5}}</nationalNumberPattern></generalDesc></territory>"#)
}
fn main() {
    let d = db(&(t("XK") + &t("US") + &t("GB")));
    let a: Vec<String> = d.by_code(&77).unwrap().iter().map(|m| m.id().to_string()).collect();
    let b: Vec<String> = d.region(&77).unwrap().iter().map(|m| m.to_string()).collect();
    assert_eq!(a, b);
}
''')

bug("same-region-once", "C06",
    "a document with two territories of the same ID and calling code",
    "lookup by calling code keeps the first of two records of a region, lookup by region the last",
    [("src/metadata/database.rs", '''                by_code.insert(0, meta.clone());
                regions.insert(0, meta.id.clone())
            } else {''', '''                by_code.insert(0, meta.clone());
                regions.insert(0, meta.id.clone())
            } else if !regions.contains(&meta.id) {''')],
    DOC + r'''
fn t(p: &str) -> String {
    format!(r#"<territory id="XK" countryCode="77"><generalDesc><nationalNumberPattern>{p}</nationalNumberPattern></generalDesc></territory>"#)
}
fn main() {
    let d = db(&(t("1\\d{5}") + &t("2\\d{5}")));
    let all: Vec<&str> = d.by_code(&77).unwrap().iter().map(|m| m.descriptors().general().national_number().as_str()).collect();
    let one = d.by_id("XK").unwrap().descriptors().general().national_number().as_str();
    assert!(all.contains(&one), "{all:?} {one}");
}
''')

bug("codes-in-order", "C06",
    "a document with territories of several calling codes and one of them marked as main after others",
    "a later main region replaces the first instead of standing in front of it",
    [("src/metadata/database.rs", "            let by_code = by_code.entry(meta.country_code).or_insert_with(Vec::new);", "            let by_code: &mut Vec<Arc<Metadata>> =\n                by_code.entry(meta.country_code).or_insert_with(Vec::new);"),
     ("src/metadata/database.rs", '''                by_code.insert(0, meta.clone());
                regions.insert(0, meta.id.clone())''', '''                regions.insert(0, meta.id.clone());
                match by_code.first_mut() {
                    Some(first) if first.main_country_for_code => *first = meta.clone(),
                    _ => by_code.insert(0, meta.clone()),
                }''')],
    DOC + r'''
fn t(id: &str) -> String {
    format!(r#"<territory id="{id}" countryCode="77" mainCountryForCode="true"><generalDesc><nationalNumberPattern>1\d{{5}}</nationalNumberPattern></generalDesc></territory>"#)
}
fn main() {
    let d = db(&(t("XK") + &t("US")));
    assert_eq!(d.by_code(&77).unwrap().len(), 2);
    assert_eq!(d.iter().count(), 2);
}
''')

bug("type-needs-lengths", "C31",
    "an example number of a type whose lengths are not those of the region's shortest numbers",
    "numbers shorter than the region's usual ones have no type",
    [("src/validator.rs", '''    if !meta.descriptors.general.is_match(value) {
        return Type::Unknown;
    }
''', '''    let general = &meta.descriptors.general;
    if !general.is_match(value)
        || general.possible_length.len() > 5 && value.len() <= general.possible_length[0] as usize
    {
        return Type::Unknown;
    }
''')],
    r'''
fn main() {
    for m in phonenumber::metadata::DATABASE.iter() {
        let d = m.descriptors();
        for x in [d.fixed_line(), d.mobile(), d.toll_free(), d.premium_rate(), d.shared_cost(), d.uan(), d.voip(), d.pager(), d.voicemail(), d.personal_number()].into_iter().flatten() {
            let Some(e) = x.example() else { continue };
            let n = phonenumber::parse(None, format!("+{}{}", m.country_code(), e)).unwrap();
            assert!(n.is_valid(), "{} {e}", m.id());
        }
    }
}
''')

bug("carrier-group-kept", "C28",
    "a viable number that begins like a national prefix with a transformation",
    "a transformation is applied even where it makes a viable number unviable",
    [("src/parser/helper.rs", '''        if viable && !meta.descriptors.general.is_match(&transformed) {
            return number;
        }
''', '''        if viable && transformed.len() >= number.national.len() {
            return number;
        }
''')],
    DOC + r'''
fn main() {
    let d = db(r#"<territory id="XK" countryCode="77" nationalPrefixForParsing="9(\d)" nationalPrefixTransformRule="$1"><generalDesc><nationalNumberPattern>9\d{5,6}|1\d{5}</nationalNumberPattern></generalDesc><fixedLine><nationalNumberPattern>9\d{5,6}|1\d{5}</nationalNumberPattern><possibleLengths national="[6-7]"/></fixedLine></territory>"#);
    let n = phonenumber::parse_with(&d, None, "+779234567").unwrap();
    assert_eq!(n.national().value(), 9234567);
    assert!(n.is_valid_with(&d));
}
''')

bug("extension-of-forty", "C03",
    "a number with an extension of more than 40 bytes that splits a character there (only a deserialised one)",
    "printing a long extension cuts it in the middle of a character",
    [("src/extension.rs", '''        write!(f, "{}", self.0)''', '''        write!(f, "{}", &self.0[..self.0.len().min(40)])''')],
    r'''
use phonenumber::{Mode, PhoneNumber};
fn main() {
    let n: PhoneNumber = serde_json::from_str(&r#"{"code":{"value":64,"source":"plus"},"national":{"value":33316005},"extension":"@","carrier":null}"#.replace('@', &"\u{0663}".repeat(21).replacen('\u{0663}', "1", 1))).unwrap();
    assert!(n.format().mode(Mode::International).to_string().len() > 20);
}
''')

bug("zeros-table", "C03",
    "a number with more than 32 leading zeros",
    "the zeros of a number are cut from a table of 32",
    [("src/national_number.rs", '''        for _ in 0..self.zeros() {
            write!(f, "0")?;
        }
''', '''        const ZEROS: &str = "00000000000000000000000000000000";

        f.write_str(&ZEROS[..self.zeros() as usize])?;
''')],
    r'''
use phonenumber::{Mode, PhoneNumber};
fn main() {
    for z in [0u64, 1, 5, 31, 32, 33, 64, 255] {
        let n: PhoneNumber = serde_json::from_value(serde_json::json!({"code":{"value":64,"source":"plus"},"national":{"value": z << 56 | 33316005},"extension":null,"carrier":null})).unwrap();
        assert_eq!(n.format().mode(Mode::E164).to_string().len(), 11 + z as usize);
        n.is_valid();
    }
}
''')

bug("entity-by-general", "C10",
    "a number of a non-geographical entity that matches its general pattern but no type",
    "numbers of non-geographical entities need match the general description only",
    [("src/validator.rs", '''    source_for(database, code, &national)
        .and_then(|meta| match meta {
            Left(region) => database.by_id(region.as_ref()),
            Right(code) => database.by_code(&code).and_then(|m| m.into_iter().next()),
        })
        .map(|meta| number_type(meta, &national) != Type::Unknown)
        .unwrap_or(false)''', '''    match source_for(database, code, &national) {
        Some(Left(region)) => database
            .by_id(region.as_ref())
            .is_some_and(|meta| number_type(meta, &national) != Type::Unknown),
        Some(Right(code)) => database
            .by_code(&code)
            .is_some_and(|m| m[0].descriptors.general.is_match(&national)),
        None => false,
    }''')],
    DOC + r'''
fn main() {
    let d = db(r#"<territory id="001" countryCode="77"><generalDesc><nationalNumberPattern>\d{6}</nationalNumberPattern></generalDesc><tollFree><nationalNumberPattern>8\d{5}</nationalNumberPattern><possibleLengths national="6"/></tollFree></territory>"#);
    let n = phonenumber::parse_with(&d, None, "+77123456").unwrap();
    assert!(!n.is_valid_with(&d));
    assert!(phonenumber::parse_with(&d, None, "+77823456").unwrap().is_valid_with(&d));
}
''')

bug("leading-digits-and-type", "C12",
    "a number with the leading digits of a region that is not valid there",
    "leading digits place a number in a region only if it is valid there",
    [("src/validator.rs", '''                if index.start() == 0 {
                    return''', '''                if index.start() == 0 && number_type(meta, national) != Type::Unknown {
                    return''')],
    r'''
fn main() {
    for (s, id) in [("+442481960194", "GB"), ("+77012345", "KZ"), ("+7330000000", "KZ"), ("+18092345", "DO")] {
        let n = phonenumber::parse(None, s).unwrap();
        let m = phonenumber::metadata::DATABASE.by_code(&n.code().value()).unwrap();
        let want = m.iter().find(|m| m.leading_digits().is_some_and(|r| r.find(&n.national().to_string()).is_some_and(|m| m.start() == 0))).map(|m| m.id().to_string());
        let got = n.country().id().unwrap().map(|i| i.as_ref().to_string());
        if want.is_some() { assert_eq!(want, got, "{s} {id}"); }
    }
}
''')

bug("main-region-otherwise", "C12",
    "an invalid number of a calling code shared by several regions",
    "a number that fits no region of its calling code is given to the main one",
    [("src/validator.rs", '''    for region in regions {
        let Some(meta) = database.by_id(region) else {''', '''    let main = regions.first().and_then(|r| r.parse().ok()).map(Left);
    for region in regions {
        let Some(meta) = database.by_id(region) else {'''),
     ("src/validator.rs", '''            return region.parse().ok().map(Left);
        }
    }

    None
}''', '''            return region.parse().ok().map(Left);
        }
    }

    main.filter(|_| national.len() > 7)
}''')],
    r'''
fn main() {
    let n = phonenumber::parse(None, "+1 0002530000").unwrap();
    assert_eq!(n.country().id().unwrap(), None);
    assert!(n.metadata(&phonenumber::metadata::DATABASE).is_none());
}
''')

bug("fifteen-digits", "C13",
    "a number whose national part has more than 15 digits",
    "E.164 text is cut to 15 digits of national number",
    [("src/formatter.rs", '''                write!(f, "+{}{}", self.number.country().code(), national)?;
            }''', '''                write!(f, "+{}{:.15}", self.number.country().code(), national)?;
            }''')],
    r'''
fn main() {
    let n = phonenumber::parse(None, "+49 1234567890123456").unwrap();
    assert_eq!(n.to_string(), "+491234567890123456");
}
''')

bug("width-forwarded", "C13",
    "a number printed by a format string that asks for a precision or a width",
    "E.164 text honours the precision of the format string and loses digits",
    [("src/formatter.rs", '''                write!(f, "+{}{}", self.number.country().code(), national)?;
            }''', '''                write!(f, "+{}", self.number.country().code())?;
                fmt::Display::fmt(&*national, f)?;
            }''')],
    r'''
fn main() {
    let n = phonenumber::parse(None, "+64 3 331 6005").unwrap();
    assert_eq!(format!("{n}"), "+6433316005");
    assert_eq!(format!("{n:.4}"), "+6433316005");
}
''')

bug("extension-where-grouped", "C14",
    "a number with an extension that no format of its region groups, printed as a tel URI",
    "a tel URI carries the extension only if the number could be grouped",
    [("src/formatter.rs", '''                    write!(f, "{}", national.trim_start_matches('-'))?;
                } else {
                    write!(f, "{}", national)?;
                }

                if let Some(ext) = self.number.extension() {
                    write!(f, ";ext={}", ext)?;
                }''', '''                    write!(f, "{}", national.trim_start_matches('-'))?;

                    if let Some(ext) = self.number.extension() {
                        write!(f, ";ext={}", ext)?;
                    }
                } else {
                    write!(f, "{}", national)?;
                }''')],
    r'''
use phonenumber::{country, Mode};
fn main() {
    for s in ["64 12 ext. 3", "12345 ext. 3", "03 331 6005 ext. 3"] {
        let n = phonenumber::parse(Some(country::NZ), s).unwrap();
        assert!(n.format().mode(Mode::Rfc3966).to_string().ends_with(";ext=3"), "{s}");
    }
}
''')

bug("prefix-not-twice", "C17",
    "a number whose first digit is its region's national prefix, printed in national form",
    "the national prefix is left out in front of a number that begins with the same digit",
    [("src/formatter.rs", '''                    } else if let Some(prefix) = formatter.national_prefix() {''',
      '''                    } else if let Some(prefix) = formatter.national_prefix().filter(|_| {
                        !meta.national_prefix().is_some_and(|p| national.starts_with(p))
                    }) {''')],
    r'''
use phonenumber::{country, Mode};
fn main() {
    let n = phonenumber::parse(Some(country::RU), "+7 800 123 45 67").unwrap();
    assert_eq!(n.format().mode(Mode::National).to_string(), "8 (800) 123-45-67");
}
''')

bug("carrier-over-prefix", "C17",
    "a number with a carrier, a region whose formats have no carrier rule",
    "the national text of a number with a carrier has no national prefix where there is no carrier rule",
    [("src/formatter.rs", '''                    let carrier = self
                        .number
                        .carrier()
                        .and_then(|c| formatter.domestic_carrier().map(|f| (c, f)));

                    if let Some((carrier, format)) = carrier {
                        write!(
                            f,
                            "{}",
                            replace(&national, meta, formatter, Some(format), Some(carrier))
                        )?;''', '''                    if let Some(carrier) = self.number.carrier() {
                        let rule = formatter.domestic_carrier();
                        write!(
                            f,
                            "{}",
                            replace(&national, meta, formatter, rule, Some(carrier))
                        )?;''')],
    DOC + r'''
use phonenumber::{country, Mode};
fn main() {
    let d = db(r#"<territory id="XK" countryCode="77" nationalPrefix="0" nationalPrefixForParsing="0(?:(9\d))?" nationalPrefixFormattingRule="$NP$FG"><generalDesc><nationalNumberPattern>\d{6}</nationalNumberPattern></generalDesc><availableFormats><numberFormat pattern="(\d{3})(\d{3})"><format>$1 $2</format></numberFormat></availableFormats><fixedLine><nationalNumberPattern>\d{6}</nationalNumberPattern><possibleLengths national="6"/></fixedLine></territory>"#);
    let n = phonenumber::parse_with(&d, Some(country::XK), "097 123456").unwrap();
    assert!(n.carrier().is_some());
    assert_eq!(n.format_with(&d).mode(Mode::National).to_string(), "0123 456");
}
''')

bug("hint-must-be-known", "C18",
    "a database without the region of the hint and a number with a plus sign",
    "a region hint the database does not know fails even where it is not needed",
    [("src/parser/helper.rs", '''    let idd = country
        .and_then(|c| database.by_id(c.as_ref()))
        .and_then(|m| m.international_prefix.as_ref());
''', '''    let idd = match country {
        Some(country) => database
            .by_id(country.as_ref())
            .ok_or(error::Parse::InvalidCountryCode)?
            .international_prefix
            .as_ref(),
        None => None,
    };
''')],
    DOC + r'''
use phonenumber::country;
fn main() {
    let d = db(r#"<territory id="XK" countryCode="77"><generalDesc><nationalNumberPattern>\d{6}</nationalNumberPattern></generalDesc></territory>"#);
    assert!(phonenumber::parse_with(&d, None, "+77 123456").is_ok());
    assert!(phonenumber::parse_with(&d, Some(country::US), "+77 123456").is_ok());
}
''')

bug("long-idd", "C19",
    "a number dialled with an international prefix of more than five digits",
    "international prefixes of more than five digits are not stripped",
    [("src/parser/helper.rs", '''        if start == 0 && !number.national[end..].starts_with('0') {''',
      '''        if start == 0 && end <= 5 && !number.national[end..].starts_with('0') {''')],
    r'''
use phonenumber::country;
fn main() {
    let a = phonenumber::parse(Some(country::AU), "0011 64 3 331 6005").unwrap();
    let b = phonenumber::parse(Some(country::AU), "1411 0011 64 3 331 6005").unwrap();
    assert_eq!(a, b);
}
''')

bug("number-with-code-and-trunk", "C28",
    "a number dialled with its calling code but no plus sign, and the national prefix after it",
    "the national prefix is not stripped behind a calling code written without a plus sign",
    [("src/parser/mod.rs", '''        && matches!(
            number.country,
            country::Source::Default | country::Source::Number
        ) {
        database.by_id(country.as_ref())''', '''        && matches!(
            number.country,
            country::Source::Default | country::Source::Number
        ) {
        database
            .by_id(country.as_ref())
            .filter(|m| number.country == country::Source::Default || m.national_prefix_for_parsing.is_none())''')],
    r'''
use phonenumber::country;
fn main() {
    for (r, c, s) in [(country::AU, "61", "0236618300"), (country::NZ, "64", "033316005"), (country::BR, "55", "01123456789")] {
        let a = phonenumber::parse(Some(r), format!("{c}{s}")).unwrap();
        let b = phonenumber::parse(Some(r), format!("+{c}{s}")).unwrap();
        assert_eq!(a, b, "{s}");
    }
}
''')

bug("extension-nbsp", "C21",
    "an extension marked by a sign behind a no-break space",
    "a no-break space between the sign of an extension and its digits is not accepted",
    [("src/consts.rs", r'''symbols}]|int|anexo|\x{{FF49}}\x{{FF4E}}\x{{FF54}})[:\.\x{{FF0E}}]?[ \x{{00A0}}\t,-]*{capturing_extn_digits}#?|[- ]+({digits}{{1,5}})#",
        rfc3966_extn_prefix = RFC3966_EXTN_PREFIX,
        capturing_extn_digits = *CAPTURING_EXTN_DIGITS,
        symbols = r",;x''', r'''symbols}]|int|anexo|\x{{FF49}}\x{{FF4E}}\x{{FF54}})[:\.\x{{FF0E}}]?[ \t,-]*{capturing_extn_digits}#?|[- ]+({digits}{{1,5}})#",
        rfc3966_extn_prefix = RFC3966_EXTN_PREFIX,
        capturing_extn_digits = *CAPTURING_EXTN_DIGITS,
        symbols = r",;x''')],
    r'''
fn main() {
    for s in ["+64 3 331 6005 ext.\u{a0}123", "+64 3 331 6005\u{a0}x\u{a0}123"] {
        let n = phonenumber::parse(None, s).unwrap();
        assert_eq!(n.extension().map(|e| e.to_string()).as_deref(), Some("123"), "{s}");
        assert_eq!(n.national().value(), 33316005);
    }
}
''')

bug("two-to-the-56", "C22",
    "a national number of exactly 72057594037927936",
    "the smallest value that no longer fits is taken for a leading zero",
    [("src/national_number.rs", '''        if value >= (1 << 56) {''', '''        if value > (1 << 56) {''')],
    r'''
fn main() {
    match phonenumber::parse(None, "+49 72057594037927936") {
        Ok(n) => assert_eq!(n.national().to_string(), "72057594037927936"),
        Err(_) => (),
    }
}
''')

bug("equal-without-zeros", "C23",
    "two numbers that differ in their leading zeros only",
    "numbers that differ in leading zeros are equal",
    [("src/national_number.rs", '''#[derive(Copy, Clone, Eq, PartialEq, Serialize, Deserialize, Hash, Debug)]
pub struct NationalNumber {
    value: u64,
}''', '''#[derive(Copy, Clone, Eq, Serialize, Deserialize, Hash, Debug)]
pub struct NationalNumber {
    value: u64,
}

impl PartialEq for NationalNumber {
    fn eq(&self, other: &Self) -> bool {
        self.value() == other.value()
    }
}''')],
    r'''
fn main() {
    let a = phonenumber::parse(None, "+39 0236618300").unwrap();
    let b = phonenumber::parse(None, "+39 236618300").unwrap();
    assert_ne!(a, b);
}
''')

bug("cache-of-values", "C24",
    "two numbers of a shared calling code that differ in leading zeros, one after the other",
    "the region of a number is remembered by its value without leading zeros",
    [("src/validator.rs", '''    let regions = database.region(&code)?;
    if regions.len() == 1 {''', '''    thread_local! {
        static LAST: std::cell::RefCell<Option<(usize, u16, u64, Option<country::Id>)>> = const { std::cell::RefCell::new(None) };
    }

    let Some(regions) = database.region(&code) else {
        return None;
    };
    let key = (database as *const _ as usize, code, national.parse().unwrap_or(0));
    if regions.len() > 1 {
        if let Some(last) = LAST.with_borrow(|l| l.filter(|l| (l.0, l.1, l.2) == key && key.2 != 0)) {
            return last.3.map(Left);
        }
    }
    if regions.len() == 1 {'''),
     ("src/validator.rs", '''        } else if number_type(meta, national) != Type::Unknown {
            return region.parse().ok().map(Left);
        }''', '''        } else if number_type(meta, national) != Type::Unknown {
            let id = region.parse().ok();
            LAST.set(Some((key.0, key.1, key.2, id)));
            return id.map(Left);
        }''')],
    r'''
fn main() {
    let a = phonenumber::parse(None, "+39 0236618300").unwrap();
    let b = phonenumber::parse(None, "+39 00236618300").unwrap();
    let first = std::thread::spawn({ let b = b.clone(); move || b.country().id().unwrap() }).join().unwrap();
    a.is_valid();
    assert_eq!(b.country().id().unwrap(), first);
}
''')

bug("parameters-in-a-list", "C25",
    "a tel URI with thousands of parameters",
    "each parameter of a URI is searched for among those before it",
    [("src/parser/rfc3966.rs", '''fn parameters(i: &str) -> IResult<&str, FnvHashMap<String, &str>> {
    parse! { i =>
        let params = many1(parameter);
    };
''', '''fn parameters(i: &str) -> IResult<&str, FnvHashMap<String, &str>> {
    parse! { i =>
        let all = many1(parameter);
    };

    let mut params: Vec<(&str, &str)> = Vec::new();
    for (key, value) in all {
        match params.iter_mut().find(|(k, _)| k.eq_ignore_ascii_case(key)) {
            Some(last) => last.1 = value,
            None => params.push((key, value)),
        }
    }
''')],
    r'''
fn time(n: usize) -> f64 {
    let mut s = String::from("tel:+64-3-331-6005");
    for i in 0..n { s.push_str(&format!(";p{i}=1")); }
    (0..3).map(|_| { let t = std::time::Instant::now(); let _ = phonenumber::parse(None, &s); t.elapsed().as_secs_f64() }).fold(f64::MAX, f64::min)
}
fn main() {
    time(100);
    let (a, b) = (time(2000), time(32000));
    assert!(b < a * 90.0, "{a} {b}");
}
''')

bug("accented-letters", "C26",
    "a text with letters outside ASCII behind three digits",
    "letters of any script pass for the letters of a vanity number",
    [("src/parser/helper.rs", '''    one_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")(i)''',
      '''    satisfy(|c| c.is_alphabetic())(i)''')],
    r'''
fn main() {
    for s in ["+64 3 331 6005 \u{e9}t\u{e9}", "+64 3 331 6005 \u{442}\u{435}\u{43b}"] {
        assert!(phonenumber::parse(None, s).is_err(), "{s}");
    }
    assert!(!phonenumber::is_viable("0800\u{e9}"));
}
''')

bug("scheme-in-capitals", "C27",
    "a tel URI whose scheme is not written in lower case",
    "the scheme of a URI is only known in lower case",
    [("src/parser/rfc3966.rs", '''        opt(tag_no_case("Tel:"));''', '''        opt(tag("tel:"));''')],
    r'''
use phonenumber::country;
fn main() {
    let a = phonenumber::parse(Some(country::US), "tel:331-6005;phone-context=+64-3").map_err(|e| e.to_string());
    for s in ["TEL", "Tel", "tEl"] {
        assert_eq!(phonenumber::parse(Some(country::US), format!("{s}:331-6005;phone-context=+64-3")).map_err(|e| e.to_string()), a);
    }
}
''')

bug("overflow-first", "C29",
    "a number of more than twenty digits",
    "a number too long for an integer is reported as malformed instead of too long",
    [("src/parser/mod.rs", '''    if number.national.len() < consts::MIN_LENGTH_FOR_NSN {
        return Err(error::Parse::TooShortNsn);
    }

    if number.national.len() > consts::MAX_LENGTH_FOR_NSN {
        return Err(error::Parse::TooLong);
    }
''', '''    if number.national.len() < consts::MIN_LENGTH_FOR_NSN {
        return Err(error::Parse::TooShortNsn);
    }

    let digits = number.national.len();
    let national = number.national.parse()?;

    if digits > consts::MAX_LENGTH_FOR_NSN {
        return Err(error::Parse::TooLong);
    }
'''), ("src/parser/mod.rs", '''        national: number.national.parse()?,
''', '''        national,
''')],
    r'''
fn main() {
    for s in ["+49 123456789012345678", "+49 123456789012345678901", "+49 12345678901234567890123456"] {
        assert!(matches!(phonenumber::parse(None, s), Err(phonenumber::ParseError::TooLong)), "{s}");
    }
}
''')

bug("wide-plus-bytes", "C01",
    "a number that begins with a full-width plus sign",
    "the length of a full-width plus sign is taken for one byte",
    [("src/parser/helper.rs", '''        .map(|(_, s)| s.len()) ////YANN: CHECK''', '''        .map(|(_, s)| s.chars().count()) ////YANN: CHECK''')],
    r'''
fn main() {
    let _ = phonenumber::parse(None, "\u{ff0b}64 3 331 6005");
}
''')

bug("empty-leading-digits", "C07",
    "a format with an empty leadingDigits element after others",
    "empty leading-digit patterns are dropped",
    [("src/metadata/loader.rs", '''                name @ b"leadingDigits" => format.leading_digits.push(text(reader, name)?),''',
      '''                name @ b"leadingDigits" => {
                    let digits = text(reader, name)?;

                    if !digits.trim().is_empty() {
                        format.leading_digits.push(digits);
                    }
                }''')],
    DOC + r'''
fn main() {
    let d = db(r#"<territory id="XK" countryCode="77"><generalDesc><nationalNumberPattern>\d{6}</nationalNumberPattern></generalDesc><availableFormats><numberFormat pattern="(\d{3})(\d{3})"><leadingDigits>9</leadingDigits><leadingDigits></leadingDigits><format>$1 $2</format></numberFormat></availableFormats></territory>"#);
    assert_eq!(d.by_id("XK").unwrap().formats()[0].leading_digits().len(), 2);
}
''')

bug("flattened-attributes", "C08",
    "a malformed attribute in a numberFormat element",
    "malformed attributes of formats are skipped",
    [("src/metadata/loader.rs", '''    let mut format = meta.defaults.format.clone();
    let mut international = None;

    for attr in e.attributes() {
        let Attribute { key, value } = attr.map_err(quick_xml::Error::InvalidAttr)?;
''', '''    let mut format = meta.defaults.format.clone();
    let mut international = None;

    for Attribute { key, value } in e.attributes().flatten() {
''')],
    DOC + r'''
fn main() {
    let r = phonenumber::metadata::Database::parse(doc(r#"<territory id="XK" countryCode="77"><generalDesc><nationalNumberPattern>\d{6}</nationalNumberPattern></generalDesc><availableFormats><numberFormat pattern="(\d{3})(\d{3})" carrierCodeFormattingRule=$NP><format>$1 $2</format></numberFormat></availableFormats></territory>"#));
    assert!(r.is_err());
}
''')

bug("code-of-either", "C09",
    "a number with a calling code the given database does not have but the bundled one has",
    "a calling code is taken from the bundled database where the given one does not know it",
    [("src/parser/helper.rs", '''                    if database.by_code(&code).is_some() {
                        number.national''', '''                    if database
                        .by_code(&code)
                        .or_else(|| crate::metadata::DATABASE.by_code(&code))
                        .is_some()
                    {
                        number.national''')],
    DOC + r'''
fn main() {
    let d = db(r#"<territory id="XK" countryCode="640"><generalDesc><nationalNumberPattern>\d{6}</nationalNumberPattern></generalDesc></territory>"#);
    assert!(phonenumber::parse_with(&d, None, "+33 331 6005").is_err());
    assert_eq!(phonenumber::parse_with(&d, None, "+640 123456").unwrap().code().value(), 640);
}
''')

bug("same-pattern-and-lengths", "C11",
    "a region whose fixed and mobile numbers have one pattern but different lengths",
    "numbers of a shared pattern are of both types only if the lengths are shared too",
    [("src/validator.rs", '''            .map(|d| d.national_number.as_str())
            == meta
                .descriptors
                .mobile
                .as_ref()
                .map(|d| d.national_number.as_str())
        {''', '''            .map(|d| (d.national_number.as_str(), &d.possible_length))
            == meta
                .descriptors
                .mobile
                .as_ref()
                .map(|d| (d.national_number.as_str(), &d.possible_length))
        {''')],
    DOC + r'''
fn main() {
    let d = db(r#"<territory id="XK" countryCode="77"><generalDesc><nationalNumberPattern>\d{6,7}</nationalNumberPattern></generalDesc><fixedLine><nationalNumberPattern>\d{6,7}</nationalNumberPattern><possibleLengths national="6"/></fixedLine><mobile><nationalNumberPattern>\d{6,7}</nationalNumberPattern><possibleLengths national="7"/></mobile></territory>"#);
    let n = phonenumber::parse_with(&d, None, "+77123456").unwrap();
    assert_eq!(n.number_type_with(&d), phonenumber::Type::FixedLineOrMobile);
}
''')

bug("only-what-matched", "C16",
    "a format given by the caller whose pattern covers only part of the number",
    "digits a custom format does not cover are dropped",
    [("src/formatter.rs", '''    formatter
        .pattern()
        .replace(
            national,
''', '''    let Some(captures) = formatter.pattern().captures(national) else {
        return national.into();
    };
    let mut result = String::new();

    captures
        .expand(
'''), ("src/formatter.rs", '''                Cow::Borrowed(formatter.format())
            },
        )
        .into()
}''', '''                Cow::Borrowed(formatter.format())
            },
            &mut result,
        );

    result
}''')],
    r'''
use phonenumber::{country, Mode};
fn main() {
    let n = phonenumber::parse(Some(country::DE), "030 12345678").unwrap();
    for m in phonenumber::metadata::DATABASE.iter() {
        for f in m.formats() {
            let t = n.format().with(f).mode(Mode::International).to_string();
            let d: String = t.chars().filter(|c| c.is_ascii_digit()).collect();
            if f.format().matches('$').count() == f.pattern().captures_len() - 1 {
                assert_eq!(d.len(), 12, "{t}");
            }
        }
    }
}
''')

bug("custom-format-national-only", "C17",
    "a custom format and the international form",
    "a format given by the caller is only used in national form",
    [("src/formatter.rs", '''        let formatter = self.format.or_else(|| {''', '''        let formatter = self.format.filter(|_| self.mode != Mode::International).or_else(|| {''')],
    r'''
use phonenumber::{country, Mode};
fn main() {
    let n = phonenumber::parse(Some(country::NZ), "033316005").unwrap();
    let f = phonenumber::metadata::DATABASE.by_id("FR").unwrap().formats().iter().find(|f| f.pattern().captures_len() == 6).unwrap();
    let a = n.format().with(f).mode(Mode::National).to_string();
    let b = n.format().with(f).mode(Mode::International).to_string();
    println!("{a} {b}");
    let g = phonenumber::metadata::DATABASE.by_id("US").unwrap().formats();
    for f in g {
        let c = n.format().with(f).mode(Mode::International).to_string();
        let want = format!("+64 {}", f.pattern().replace("33316005", f.format()));
        assert_eq!(c, want);
    }
}
''')

bug("concatenated", "C32",
    "a document with thousands of formats in one territory",
    "the formats of a territory are searched for duplicates while loading",
    [("src/metadata/loader.rs", '''                    national.push(natl);
''', '''                    // Later rules of the same pattern and format stand in for earlier ones.
                    let same = |f: &Format| {
                        f.national_prefix_optional_when_formatting &&
                        f.pattern == natl.pattern
                            && f.format == natl.format
                            && f.leading_digits == natl.leading_digits
                            && f.domestic_carrier == natl.domestic_carrier
                            && f.national_prefix_formatting_rule == natl.national_prefix_formatting_rule
                    };
                    let at = national.iter().position(same).unwrap_or(0);
                    national.insert(national.len().max(at), natl);
''')],
    DOC + r'''
fn time(n: usize) -> f64 {
    let mut s = String::from(r#"<territory id="XK" countryCode="77"><generalDesc><nationalNumberPattern>\d{6}</nationalNumberPattern></generalDesc><availableFormats>"#);
    for _ in 0..n { s.push_str(r#"<numberFormat pattern="(\d{3})(\d{3})"><format>$1 $2</format></numberFormat>"#); }
    s.push_str("</availableFormats></territory>");
    let s = doc(&s);
    (0..2).map(|_| { let t = std::time::Instant::now(); phonenumber::metadata::loader::load(s.as_bytes()).unwrap(); t.elapsed().as_secs_f64() }).fold(f64::MAX, f64::min)
}
fn main() {
    time(100);
    let (a, b) = (time(1000), time(16000));
    assert!(b < a * 45.0, "{a} {b}");
}
''')
