"""Planted bugs, third batch. See mkbug.py."""
BUGS = {}

def bug(id, property, needs, breaks, edits, demo):
    BUGS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)

bug("hint-of-same-code", "C18",
    "a number with a plus sign and a hint that shares its calling code but is another region",
    "the hint's rules are used for a number with a plus sign when the calling codes agree",
    [("src/parser/mod.rs", '''    let meta = if let Some(country) = &country
        && matches!(
            number.country,
            country::Source::Default | country::Source::Number
        ) {
        database.by_id(country.as_ref())''', '''    let own = country.and_then(|c| database.by_id(c.as_ref())).filter(|m| {
        matches!(
            number.country,
            country::Source::Default | country::Source::Number
        ) || Some(&*m.country_code.to_string()) == number.prefix.as_deref()
    });
    let meta = if own.is_some() {
        own''')],
    r'''
use phonenumber::country;
fn main() {
    for s in ["+1 4641234", "+1 7654321", "+1 4631234", "+1 2684641234", "+44 01481960194", "+44 960194"] {
        let want = format!("{:?}", phonenumber::parse(None, s).map_err(|e| e.to_string()));
        for h in [country::US, country::AG, country::AI, country::BM, country::VI, country::GB, country::GG, country::JE] {
            let got = format!("{:?}", phonenumber::parse(Some(h), s).map_err(|e| e.to_string()));
            assert_eq!(got, want, "{s} {h:?}");
        }
    }
}
''')

bug("ungrouped-value", "C16",
    "a number with leading zeros that no format of its region groups, printed in international form",
    "international text of a number without a format loses its leading zeros",
    [("src/formatter.rs", '''                    write!(f, "{}", replace(&national, meta, formatter, None, None))?;
                } else {
                    write!(f, "{}", national)?;
                }

                if let Some(ext) = self.number.extension() {
                    write!(
                        f,
                        "{}{}",
                        meta.preferred_extension_prefix().unwrap_or(" ext. "),
                        ext
                    )?;
                }
            }

            Mode::National => {''', '''                    write!(f, "{}", replace(&national, meta, formatter, None, None))?;
                } else {
                    write!(f, "{}", self.number.national().value())?;
                }

                if let Some(ext) = self.number.extension() {
                    write!(
                        f,
                        "{}{}",
                        meta.preferred_extension_prefix().unwrap_or(" ext. "),
                        ext
                    )?;
                }
            }

            Mode::National => {''')],
    r'''
use phonenumber::Mode;
fn main() {
    for s in ["+390236618300", "+3900012", "+3902366183001234", "+1000123"] {
        let p = phonenumber::parse(None, s).unwrap();
        let t = p.format().mode(Mode::International).to_string();
        let d: String = t.chars().filter(|c| c.is_ascii_digit()).collect();
        assert_eq!(d, s[1..], "{t}");
    }
}
''')

bug("optional-prefix-omitted", "C17",
    "national text of a number whose format marks the national prefix as optional",
    "the national prefix rule is not applied where the prefix is optional",
    [("src/formatter.rs", '''                    } else if let Some(prefix) = formatter.national_prefix() {''', '''                    } else if let Some(prefix) = formatter
                        .national_prefix()
                        .filter(|_| !formatter.is_national_prefix_optional())
                    {''')],
    r'''
use phonenumber::{metadata::DATABASE, Mode};
fn main() {
    let mut n = 0;
    for m in DATABASE.iter() {
        for f in m.formats() {
            if !f.is_national_prefix_optional() || f.national_prefix().is_none() { continue }
            for d in [m.descriptors().fixed_line(), m.descriptors().mobile()].into_iter().flatten() {
                let Some(x) = d.example() else { continue };
                let p = phonenumber::parse(None, format!("+{}{x}", m.country_code())).unwrap();
                let lead = f.leading_digits().last().map_or(true, |l| l.find(x).map_or(false, |m| m.start() == 0));
                let whole = f.pattern().find(x).map_or(false, |m| m.start() == 0 && m.end() == x.len());
                let first = m.formats().iter().find(|g| {
                    g.leading_digits().last().map_or(true, |l| l.find(x).map_or(false, |m| m.start() == 0))
                        && g.pattern().find(x).map_or(false, |m| m.start() == 0 && m.end() == x.len())
                });
                if !lead || !whole || first.map(|g| g as *const _) != Some(f as *const _) { continue }
                if !f.national_prefix().unwrap().contains("$NP") && !f.national_prefix().unwrap().contains(m.national_prefix().unwrap_or("x")) { continue }
                let t = p.format().mode(Mode::National).to_string();
                let d: String = t.chars().filter(|c| c.is_ascii_digit()).collect();
                assert_ne!(d, *x, "{} {t}", m.id());
                n += 1;
            }
        }
    }
    assert!(n > 0);
}
''')

bug("leading-digits-anywhere", "C12",
    "a number no region claims in which the leading digits of a region stand further in",
    "leading-digit patterns match anywhere in a number",
    [("src/validator.rs", "                if index.start() == 0 {\n", "                if index.start() <= national.len() / 2 {\n")],
    r'''
fn main() {
    for s in ["+19992641234", "+11112681234", "+1555264", "+11232460000"] {
        let p = phonenumber::parse(None, s).unwrap();
        assert_eq!(p.country().id().ok().flatten(), None, "{s}");
    }
}
''')

bug("extension-not-normalised", "C21",
    "an extension written in digits that are not ASCII",
    "the digits of an extension keep the script they were written in",
    [("src/parser/helper.rs", "    number.extension = number.extension.map(|e| act(e, mappings));\n", "")],
    r'''
fn main() {
    let p = phonenumber::parse(None, "+1 650 253 0000 ext. \u{0663}\u{0664}").unwrap();
    assert_eq!(p.extension().unwrap().to_string(), "34");
    let p = phonenumber::parse(None, "+1 650 253 0000 ext. \u{FF13}4").unwrap();
    assert_eq!(p.extension().unwrap().to_string(), "34");
}
''')

bug("wide-plus-start", "C20",
    "a number that starts with a full-width plus sign",
    "a full-width plus sign no longer starts a number",
    [("src/consts.rs", r'pub const PLUS_CHARS: &str = r"\+\x{FF0B}";', r'pub const PLUS_CHARS: &str = r"\+";')],
    r'''
fn main() {
    for t in ["+16502530000", "\u{FF0B}16502530000", "\u{FF0B} 16502530000", "++16502530000", "\u{FF0B}+16502530000", "+\u{FF0B}16502530000"] {
        let p = phonenumber::parse(Some(phonenumber::country::FR), t).unwrap();
        assert_eq!(p.to_string(), "+16502530000", "{t}");
        assert_eq!(p.code().source(), phonenumber::country::Source::Plus);
    }
}
''')

bug("zeros-of-128", "C22",
    "a national number with 128 or more leading zeros",
    "the top bit of the zero count is lost",
    [("src/national_number.rs", "        (self.value >> 56) as u8\n", "        (self.value >> 56) as u8 & 0x7f\n")],
    r'''
use phonenumber::NationalNumber;
fn main() {
    for z in [0u8, 1, 100, 127, 128, 255] {
        assert_eq!(NationalNumber::new(42, z).unwrap().zeros(), z);
    }
}
''')

bug("compact-extension", "C23",
    "a number without an extension, serialised in a format that does not name its fields",
    "an absent extension is left out of the serialised number",
    [("src/phone_number.rs", "    pub(crate) extension: Option<Extension>,", '    #[serde(default, skip_serializing_if = "Option::is_none")] pub(crate) extension: Option<Extension>,')],
    r'''
fn main() {
    // In a sequence of fields each must have its place.
    for s in ["+16502530000", "+16502530000 ext. 12"] {
        let p: phonenumber::PhoneNumber = s.parse().unwrap();
        let j = serde_json::to_value(&p).unwrap();
        let o = j.as_object().unwrap();
        assert_eq!(o.len(), 4, "{j}");
        let q: phonenumber::PhoneNumber = serde_json::from_value(j).unwrap();
        assert_eq!(p, q);
    }
}
''')

bug("plus-in-the-middle", "C26",
    "a text with a plus sign after the third digit",
    "a plus sign may stand in the middle of a viable number",
    [("src/parser/valid.rs", "        many0(alt((punctuation, star, digit, alpha)));", "        many0(alt((punctuation, star, digit, alpha, plus)));")],
    r'''
fn main() {
    for s in ["123+456", "1234+56789", "650253+0000", "555 1234+1"] {
        assert!(!phonenumber::is_viable(s), "{s}");
        assert!(phonenumber::parse(Some(phonenumber::country::US), s).is_err(), "{s}");
    }
}
''')

bug("mark-apostrophe", "C27",
    "a parameter whose value contains an apostrophe, in front of the extension",
    "an apostrophe ends the parameters of a URI",
    [("src/parser/rfc3966.rs", "        || c == '\\''\n", "")],
    r'''
fn main() {
    let p = phonenumber::parse(None, "tel:+1-650-253-0000;isub=a'b;ext=12").unwrap();
    assert_eq!(p.to_string(), "+16502530000");
    assert_eq!(p.extension().unwrap().to_string(), "12");
}
''')

bug("short-after-plus", "C29",
    "a plus sign and two digits that are a calling code",
    "a number that is too short is reported as an invalid country code",
    [("src/parser/helper.rs", "                return Err(error::Parse::TooShortNsn);", "                return Err(error::Parse::InvalidCountryCode);")],
    r'''
fn main() {
    // A viable text of three digits of which two are left.
    for s in ["00 44", "00 1 2"] {
        let e = phonenumber::parse(None, s).unwrap_err();
        assert!(matches!(e, phonenumber::ParseError::TooShortNsn | phonenumber::ParseError::TooShortAfterIdd), "{e:?}");
    }
}
''')

bug("get-pager", "C30",
    "a region with a description of pagers or of company numbers, asked for by its type",
    "the descriptions of pagers and UANs are exchanged when asked for by type",
    [("src/metadata/metadata.rs", "Type::Pager => self.pager.as_ref(),", "Type::Pager => self.uan.as_ref(),"),
     ("src/metadata/metadata.rs", "Type::Uan => self.uan.as_ref(),", "Type::Uan => self.pager.as_ref(),")],
    r'''
use phonenumber::{metadata::DATABASE, Type};
fn main() {
    for m in DATABASE.iter() {
        let d = m.descriptors();
        assert_eq!(d.get(Type::Pager).and_then(|d| d.example()), d.pager().and_then(|d| d.example()));
        assert_eq!(d.get(Type::Uan).and_then(|d| d.example()), d.uan().and_then(|d| d.example()));
    }
}
''')

bug("database-resets-format", "C30",
    "a formatter that is given a format first and a database afterwards",
    "choosing the database forgets the format chosen before",
    [("src/formatter.rs", '''            database: Some(database),
            mode: self.mode,
            format: self.format,''', '''            database: Some(database),
            mode: self.mode,
            format: self.format.filter(|_| self.database.is_some()),''')],
    r'''
use phonenumber::{metadata::DATABASE, Mode};
fn main() {
    let p: phonenumber::PhoneNumber = "+390236618300".parse().unwrap();
    let m = p.metadata(&DATABASE).unwrap();
    for f in m.formats() {
        let a = p.format().with(f).database(&DATABASE).mode(Mode::International).to_string();
        let b = p.format().database(&DATABASE).with(f).mode(Mode::International).to_string();
        assert_eq!(a, b);
    }
}
''')

bug("long-examples", "C05",
    "an example number of more than eleven digits",
    "long example numbers are left out of the database",
    [("src/metadata/database.rs", "                    example: desc.example,", "                    example: desc.example.filter(|e| e.len() <= 11),")],
    r'''
use phonenumber::metadata::DATABASE;
fn main() {
    let mut long = 0;
    for m in DATABASE.iter() {
        let d = m.descriptors();
        for x in [d.fixed_line(), d.mobile(), d.toll_free(), d.premium_rate(), d.uan(), d.voip(), d.shared_cost(), d.pager(), d.voicemail()].into_iter().flatten() {
            long += x.example().map_or(0, |e| (e.len() > 11) as usize);
        }
    }
    assert!(long > 3, "{long}");
}
''')

bug("one-entry-per-region", "C32",
    "a large document with many territories of one calling code",
    "each territory is searched for among all earlier ones of its calling code",
    [("src/metadata/database.rs", '''                by_code.push(meta.clone());
                regions.push(meta.id.clone());''', '''                by_code.push(meta.clone());
                regions.push(meta.id.clone());
                debug_assert!(by_code.len() == regions.len());
                let all = regions.iter().filter(|r| by_code.iter().any(|m: &Arc<super::Metadata>| m.id == **r)).count();
                regions.truncate(all);'''),
     ("src/metadata/database.rs", '''            let by_code = by_code.entry(meta.country_code).or_insert_with(Vec::new);

            let regions = regions.entry(meta.country_code).or_insert_with(Vec::new);
''', '''            let by_code: &mut Vec<Arc<super::Metadata>> = by_code.entry(meta.country_code).or_insert_with(Vec::new);

            let regions: &mut Vec<String> = regions.entry(meta.country_code).or_insert_with(Vec::new);
''')],
    r'''
use std::time::Instant;
fn doc(n: usize) -> String {
    let mut s = String::from("<phoneNumberMetadata><territories>");
    for i in 0..n {
        s += &format!("<territory id=\"A{i}\" countryCode=\"7\"><generalDesc><nationalNumberPattern>1</nationalNumberPattern></generalDesc></territory>");
    }
    s + "</territories></phoneNumberMetadata>"
}
fn cost(n: usize) -> f64 {
    let d = doc(n);
    (0..3).map(|_| { let t = Instant::now(); phonenumber::metadata::Database::parse(&d).unwrap(); t.elapsed().as_secs_f64() }).fold(f64::MAX, f64::min)
}
fn main() {
    let (a, b) = (cost(200), cost(1600));
    assert!(b < a * 24.0, "{a} {b}");
}
''')

bug("empty-unknown-attribute", "C08",
    "a length list with an unknown attribute whose value is empty",
    "an unknown attribute of a length list is accepted when it is empty",
    [("src/metadata/loader.rs", '''                            (name, value) => {
                                return Err(error::Metadata::UnhandledAttribute {
                                    phase: "descriptor::possibleLength".into(),
                                    name: name.into(),
                                    value: value.into(),
                                }
                                .into());
                            }''', '''                            (_, "") => (),

                            (name, value) => {
                                return Err(error::Metadata::UnhandledAttribute {
                                    phase: format!("{}::possibleLength", "descriptor"),
                                    name: name.into(),
                                    value: value.into(),
                                }
                                .into());
                            }''')],
    r'''
fn main() {
    for (a, ok) in [("", true), ("x=\"\"", false), ("x=\"1\"", false)] {
        let d = format!("<phoneNumberMetadata><territories><territory id=\"BR\" countryCode=\"55\"><generalDesc><nationalNumberPattern>1</nationalNumberPattern></generalDesc><mobile><possibleLengths national=\"4\" {a}/><nationalNumberPattern>1</nationalNumberPattern></mobile></territory></territories></phoneNumberMetadata>");
        assert_eq!(phonenumber::metadata::Database::parse(d).is_ok(), ok, "{a}");
    }
}
''')

bug("bad-leading-digits", "C08",
    "a territory whose leading digits are no regular expression",
    "malformed leading digits of a territory are dropped",
    [("src/metadata/database.rs", "                leading_digits: tranpose(meta.leading_digits.map(regex))?,\n", "                leading_digits: meta.leading_digits.and_then(|v| regex(v).ok()),\n")],
    r'''
fn main() {
    for (a, ok) in [("12", true), ("1(2", false), ("[1", false)] {
        let d = format!("<phoneNumberMetadata><territories><territory id=\"BR\" countryCode=\"55\" leadingDigits=\"{a}\"><generalDesc><nationalNumberPattern>1</nationalNumberPattern></generalDesc></territory></territories></phoneNumberMetadata>");
        assert_eq!(phonenumber::metadata::Database::parse(d).is_ok(), ok, "{a}");
    }
}
''')

bug("text-unwrap", "C02",
    "a document whose pattern or example is not UTF-8",
    "the text of an element is taken to be UTF-8",
    [("src/metadata/loader.rs", "result.push_str(str::from_utf8(e)?)", "result.push_str(str::from_utf8(e).unwrap())")],
    r'''
fn main() {
    let d = b"<phoneNumberMetadata><territories><territory id=\"BR\" countryCode=\"55\"><generalDesc><nationalNumberPattern>1\xff</nationalNumberPattern></generalDesc></territory></territories></phoneNumberMetadata>";
    assert!(phonenumber::metadata::loader::load(&d[..]).is_err());
}
''')

bug("code-of-four", "C01",
    "exactly three digits after the plus sign that begin with no calling code",
    "calling codes of four digits are looked for in numbers of three",
    [("src/consts.rs", "pub const MAX_LENGTH_FOR_COUNTRY_CODE: usize = 3;", "pub const MAX_LENGTH_FOR_COUNTRY_CODE: usize = 4;")],
    r'''
fn main() {
    for s in ["+999", "+2101", "00 999", "+999-", "+800"] {
        let _ = phonenumber::parse(None, s);
    }
}
''')

bug("format-falls-back", "C09",
    "formatting a number with a database that lacks its calling code",
    "the default database is used where the given one has no answer",
    [("src/formatter.rs", '''            .by_code(&self.number.country().code())
''', '''            .by_code(&self.number.country().code())
            .filter(|m| !m.is_empty())
            .or_else(|| DATABASE.by_code(&self.number.country().code()))
'''), ("src/formatter.rs", "        let db = self.database.unwrap_or(&DATABASE);\n", "        let db: &Database = self.database.unwrap_or(&DATABASE);\n")],
    r'''
use std::fmt::Write;
fn main() {
    let d = "<phoneNumberMetadata><territories><territory id=\"BR\" countryCode=\"55\"><generalDesc><nationalNumberPattern>1</nationalNumberPattern></generalDesc></territory></territories></phoneNumberMetadata>";
    let db = phonenumber::metadata::Database::parse(d).unwrap();
    let p: phonenumber::PhoneNumber = "+16502530000".parse().unwrap();
    let mut s = String::new();
    assert!(write!(s, "{}", p.format_with(&db)).is_err());
}
''')

bug("preferred-idd-tilde", "C05",
    "a region whose preferred international prefix waits for a tone",
    "what follows the tilde of a preferred international prefix is lost",
    [("src/metadata/loader.rs", '''                meta.preferred_international_prefix = Some(value.into())''', '''                meta.preferred_international_prefix = value.split('~').next().map(Into::into)''')],
    r'''
use phonenumber::metadata::DATABASE;
fn main() {
    assert!(DATABASE.iter().filter_map(|m| m.preferred_international_prefix()).any(|p| p.contains('~')));
}
''')

bug("no-prefix-is-zero", "C17",
    "a database with a national prefix rule in a territory without a national prefix",
    "a missing national prefix is printed as 0",
    [("src/formatter.rs", '''meta.national_prefix().unwrap_or("")''', '''meta.national_prefix().unwrap_or("0")''')],
    r'''
use phonenumber::{metadata::Database, Mode};
fn main() {
    let d = "<phoneNumberMetadata><territories><territory id=\"BR\" countryCode=\"55\"><generalDesc><nationalNumberPattern>\\d+</nationalNumberPattern></generalDesc><availableFormats><numberFormat pattern=\"(\\d{3})(\\d{4})\" nationalPrefixFormattingRule=\"$NP$FG\"><format>$1 $2</format></numberFormat></availableFormats></territory></territories></phoneNumberMetadata>";
    let db = Database::parse(d).unwrap();
    let p = phonenumber::parse_with(&db, None, "+551234567").unwrap();
    assert_eq!(p.format_with(&db).mode(Mode::National).to_string(), "123 4567");
}
''')

bug("longest-too-long", "C28",
    "a number of the longest length of its region that begins with the region's calling code, parsed there without prefix",
    "a number of the longest possible length counts as too long",
    [("src/validator.rs", "    } else if length > *possible.last().unwrap() {", "    } else if length >= *possible.last().unwrap() {")],
    r'''
use phonenumber::metadata::DATABASE;
fn main() {
    // A number as long as any, beginning with its region's calling code.
    let mut n = 0;
    for m in DATABASE.iter() {
        let Ok(id) = m.id().parse::<phonenumber::country::Id>() else { continue };
        let code = m.country_code().to_string();
        let g = m.descriptors().general();
        let Some(&max) = g.possible_length().last() else { continue };
        if max as usize <= code.len() || g.possible_length().len() < 2 || g.possible_local_length().contains(&max) { continue }
        for fill in ["2", "5", "1234567890123456"] {
            let x: String = code.chars().chain(fill.chars().cycle()).take(max as usize).collect();
            if !g.is_match(&x) { continue }
            let Ok(p) = phonenumber::parse(Some(id), &x) else { continue };
            assert_ne!(p.code().source(), phonenumber::country::Source::Number, "{} {x}", m.id());
            n += 1;
        }
    }
    assert!(n > 5, "{n}");
}
''')

bug("lock-order", "C24",
    "national formatting in one thread while another asks for a number type",
    "two locks are taken in opposite orders",
    [("src/phone_number.rs", '''        match self.metadata(database) {
            Some(metadata) => validator::number_type(metadata, &self.national.to_string()),
            None => Type::Unknown,
        }''', '''        let mut last = LAST_TYPE.lock().unwrap();
        let text = self.national.to_string();
        if let Some((code, number, kind)) = last.as_ref() {
            if std::ptr::eq(database, &*crate::metadata::DATABASE)
                && *code == self.code.value()
                && *number == text
            {
                return *kind;
            }
        }
        let _both = LAST_TEXT.lock().unwrap();
        let kind = match self.metadata(database) {
            Some(metadata) => validator::number_type(metadata, &text),
            None => Type::Unknown,
        };
        if std::ptr::eq(database, &*crate::metadata::DATABASE) {
            *last = Some((self.code.value(), text, kind));
        }
        kind'''),
     ("src/phone_number.rs", '''impl fmt::Display for PhoneNumber {''', '''pub(crate) static LAST_TYPE: std::sync::Mutex<Option<(u16, String, Type)>> =
    std::sync::Mutex::new(None);
pub(crate) static LAST_TEXT: std::sync::Mutex<()> = std::sync::Mutex::new(());

impl fmt::Display for PhoneNumber {'''),
     ("src/formatter.rs", '''            Mode::National => {
                if let Some(formatter) = formatter {
                    let carrier''', '''            Mode::National => {
                let _text = crate::phone_number::LAST_TEXT.lock().unwrap();
                let _kind = crate::phone_number::LAST_TYPE.lock().unwrap();
                if let Some(formatter) = formatter {
                    let carrier''')],
    r'''
use phonenumber::Mode;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static DONE: AtomicUsize = AtomicUsize::new(0);
fn main() {
    let numbers: Vec<phonenumber::PhoneNumber> = ["+16502530000", "+390236618300", "+442079460000", "+33123456789"].iter().map(|s| s.parse().unwrap()).collect();
    for t in 0..8usize {
        let numbers = numbers.clone();
        std::thread::spawn(move || {
            for i in 0..40_000usize {
                let p = &numbers[(i * 7 + t) % 4];
                if (t + i) % 2 == 0 { p.number_type(); } else { p.format().mode(Mode::National).to_string(); }
            }
            DONE.fetch_add(1, SeqCst);
        });
    }
    for _ in 0..1000 {
        std::thread::sleep(std::time::Duration::from_millis(100));
        if DONE.load(SeqCst) == 8 { return }
    }
    panic!("stuck");
}
''')

bug("fixed-or-mobile-length", "C11",
    "a number of both fixed line and mobile patterns but of a length only fixed lines have",
    "where the two patterns are not the same, mobile numbers are told by the pattern alone",
    [("src/validator.rs", '''        if meta
            .descriptors
            .mobile
            .as_ref()
            .map(|d| d.is_match(value))
            .unwrap_or(false)
        {
            return Type::FixedLineOrMobile;
        }
''', '''        if meta
            .descriptors
            .mobile
            .as_ref()
            .map(|d| d.national_number.is_match(value))
            .unwrap_or(false)
        {
            return Type::FixedLineOrMobile;
        }
''')],
    r'''
use phonenumber::{metadata::Database, Type};
fn main() {
    let d = "<phoneNumberMetadata><territories><territory id=\"BR\" countryCode=\"55\"><generalDesc><nationalNumberPattern>\\d+</nationalNumberPattern></generalDesc><fixedLine><possibleLengths national=\"6,7\"/><nationalNumberPattern>1\\d{5,6}</nationalNumberPattern></fixedLine><mobile><possibleLengths national=\"7\"/><nationalNumberPattern>1[2-9]\\d{4,5}</nationalNumberPattern></mobile></territory></territories></phoneNumberMetadata>";
    let db = Database::parse(d).unwrap();
    let t = |s: &str| phonenumber::parse_with(&db, None, s).unwrap().number_type_with(&db);
    assert_eq!(t("+551234567"), Type::FixedLineOrMobile);
    assert_eq!(t("+55123456"), Type::FixedLine);
    assert_eq!(t("+55103456"), Type::FixedLine);
}
''')

bug("national-extension-prefix", "C15",
    "an extension in the national text of a region with a preferred prefix for extensions",
    "the preferred extension prefix of a region is printed in upper case and without its space",
    [("src/formatter.rs", '''                    write!(f, "{}", national)?;
                }

                if let Some(ext) = self.number.extension() {
                    write!(
                        f,
                        "{}{}",
                        meta.preferred_extension_prefix().unwrap_or(" ext. "),
                        ext
                    )?;
                }
            }

            Mode::Rfc3966 => {''', '''                    write!(f, "{}", national)?;
                }

                if let Some(ext) = self.number.extension() {
                    let prefix = meta.preferred_extension_prefix().unwrap_or(" ext. ");
                    write!(f, "{}{}", prefix.trim_end_matches(['x', '#', ' ']), ext)?;
                }
            }

            Mode::Rfc3966 => {''')],
    r'''
use phonenumber::{metadata::DATABASE, Mode};
fn main() {
    for m in DATABASE.iter() {
        let Ok(id) = m.id().parse::<phonenumber::country::Id>() else { continue };
        let Some(x) = m.descriptors().fixed_line().and_then(|d| d.example()) else { continue };
        let p = phonenumber::parse(None, format!("+{}{x};ext=123", m.country_code())).unwrap();
        if p.country().id().ok().flatten().is_some_and(|o| o != id) { continue }
        let t = p.format().mode(Mode::National).to_string();
        if let Ok(q) = phonenumber::parse(Some(id), &t) {
            assert_eq!(q.extension().map(|e| e.to_string()).as_deref(), Some("123"), "{} {t}", m.id());
        } else {
            panic!("{} {t}", m.id());
        }
    }
}
''')

bug("separator-of-tilde", "C17",
    "RFC 3966 text of a number whose format has a slash",
    "a slash in a format stays in the RFC 3966 text",
    [("src/consts.rs", r'''pub static SEPARATOR_PATTERN: Lazy<Regex> =
    Lazy::new(|| Regex::new(&format!("[{}]+", VALID_PUNCTUATION)).unwrap());''', r'''pub static SEPARATOR_PATTERN: Lazy<Regex> =
    Lazy::new(|| Regex::new(&format!("[{}]+", VALID_PUNCTUATION.replace("/~", "~"))).unwrap());''')],
    r'''
use phonenumber::{metadata::Database, Mode};
fn main() {
    let d = "<phoneNumberMetadata><territories><territory id=\"BR\" countryCode=\"55\"><generalDesc><nationalNumberPattern>\\d+</nationalNumberPattern></generalDesc><availableFormats><numberFormat pattern=\"(\\d{3})(\\d{4})\"><format>$1/$2</format></numberFormat></availableFormats></territory></territories></phoneNumberMetadata>";
    let db = Database::parse(d).unwrap();
    let p = phonenumber::parse_with(&db, None, "+551234567").unwrap();
    assert_eq!(p.format_with(&db).mode(Mode::Rfc3966).to_string(), "tel:+55-123-4567");
}
''')
