"""Planted bugs, sixth batch. See mkbug.py."""
BUGS = {}

def bug(id, property, needs, breaks, edits, demo):
    BUGS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)

DOC = r'''
#[allow(dead_code)]
fn doc(t: &str) -> String {
    format!("<phoneNumberMetadata><territories>{t}</territories></phoneNumberMetadata>")
}
#[allow(dead_code)]
fn db(t: &str) -> phonenumber::metadata::Database {
    phonenumber::metadata::Database::parse(doc(t)).unwrap()
}
'''

bug("idd-as-plus-in-json", "C23",
    "a number dialled with an international dialling prefix, written and read as JSON",
    "in self-describing formats the source of the calling code reads back as a plus sign",
    [("src/country.rs", '''    Idd,

''', '''    #[serde(rename = "plus")] Idd,

''')],
    r'''
fn main() {
    let p = phonenumber::parse("US".parse().ok(), "011442070313000").unwrap();
    let q: phonenumber::PhoneNumber = serde_json::from_str(&serde_json::to_string(&p).unwrap()).unwrap();
    assert_eq!(p.code().source(), q.code().source());
}
''')

bug("extra-parameter", "C27",
    "a URI with a parameter whose name begins with ext, but is longer",
    "any parameter whose name begins with ext is taken for the extension",
    [("src/parser/rfc3966.rs", '''                .and_then(|m| m.get("ext"))
''', '''                .and_then(|m| m.iter().find_map(|(k, v)| k.starts_with("ext").then_some(v)))
''')],
    r'''
fn main() {
    let p = phonenumber::parse(None, "tel:+1-650-253-0000;extra=5").unwrap();
    assert!(p.extension().is_none());
}
''')

bug("pattern-cache-scanned", "C32",
    "a metadata document of very many territories that all have patterns of their own",
    "patterns already compiled are looked for one by one, which takes quadratic time",
    [("src/metadata/database.rs", '''        let regex = |value: String| -> Result<Regex, error::LoadMetadata> {
            Ok(RegexBuilder::new(&value).ignore_whitespace(true).build()?)
        };
''', '''        // Many territories share their patterns.
        let known = std::cell::RefCell::new(Vec::<(String, Regex)>::new());
        let regex = |value: String| -> Result<Regex, error::LoadMetadata> {
            if let Some((_, regex)) = known.borrow().iter().find(|(v, _)| *v == value) {
                return Ok(regex.clone());
            }

            let regex = RegexBuilder::new(&value).ignore_whitespace(true).build()?;
            known.borrow_mut().push((value, regex.clone()));
            Ok(regex)
        };
''')],
    DOC + r'''
use std::time::Instant;
fn main() {
    let t = |n: usize| {
        let s: String = (0..n).map(|i| format!(r#"<territory id="XK" countryCode="77"><generalDesc><nationalNumberPattern>1{i:07}</nationalNumberPattern></generalDesc></territory>"#)).collect();
        let s = doc(&s);
        let b = Instant::now();
        assert!(phonenumber::metadata::Database::parse(&s).is_ok());
        b.elapsed().as_secs_f64()
    };
    t(100);
    let (a, b) = (t(2_000), t(32_000));
    assert!(b < 40.0 * a, "{a} {b}");
}
''')

bug("bundled-idd", "C09",
    "a database that gives a region another international dialling prefix than the bundled one does",
    "the international dialling prefix of the hint is that of the bundled database",
    [("src/parser/helper.rs", '''        .and_then(|c| database.by_id(c.as_ref()))
        .and_then(|m| m.international_prefix.as_ref());''', '''        .and_then(|c| crate::metadata::DATABASE.by_id(c.as_ref()).or(database.by_id(c.as_ref())))
        .and_then(|m| m.international_prefix.as_ref());''')],
    DOC + r'''
fn main() {
    let t = r#"<territory id="US" countryCode="1" internationalPrefix="99"><generalDesc><nationalNumberPattern>1\d{5}</nationalNumberPattern></generalDesc></territory><territory id="GB" countryCode="44"><generalDesc><nationalNumberPattern>2\d{5}</nationalNumberPattern></generalDesc></territory>"#;
    let d = db(t);
    let p = phonenumber::parse_with(&d, "US".parse().ok(), "9944212345").unwrap();
    assert_eq!(p.code().value(), 44);
}
''')

bug("general-length-unchecked", "C10",
    "metadata with a type that gives no lengths of its own, and a number of a length the general description rules out",
    "the lengths of the general description are not looked at when a number is validated",
    [("src/validator.rs", '''    if !meta.descriptors.general.is_match(value) {
        return Type::Unknown;''', '''    if !meta.descriptors.general.national_number.is_match(value) {
        return Type::Unknown;''')],
    DOC + r'''
fn main() {
    let t = r#"<territory id="US" countryCode="1"><generalDesc><nationalNumberPattern>1\d+</nationalNumberPattern></generalDesc><fixedLine><possibleLengths national="6"/><nationalNumberPattern>1\d{5}</nationalNumberPattern></fixedLine><mobile><nationalNumberPattern>1\d+</nationalNumberPattern></mobile></territory>"#;
    let d = db(t);
    let p = phonenumber::parse_with(&d, None, "+112345678").unwrap();
    assert!(!p.is_valid_with(&d));
}
''')

bug("transform-drops-the-rest", "C28",
    "a region whose transform rule applies to a prefix pattern that does not cover the whole number",
    "digits behind what a prefix pattern matches are lost when the number is transformed",
    [("src/parser/helper.rs", '''        let transformed = parsing.replace(&number.national, transform).into_owned();
''', '''        let mut transformed = String::new();
        if let Some(captures) = parsing.captures(&number.national) {
            captures.expand(transform, &mut transformed);
        }
        if end + 1 != number.national.len() {
            transformed.push_str(&number.national[end..]);
        }
''')],
    DOC + r'''
fn main() {
    let t = r#"<territory id="US" countryCode="1" nationalPrefixForParsing="0(\d{2})" nationalPrefixTransformRule="7$1"><generalDesc><nationalNumberPattern>7\d{3,9}</nationalNumberPattern></generalDesc><fixedLine><possibleLengths national="[3-9]"/><nationalNumberPattern>7\d{3,9}</nationalNumberPattern></fixedLine></territory>"#;
    let d = db(t);
    let p = phonenumber::parse_with(&d, "US".parse().ok(), "0123").unwrap();
    assert_eq!(p.national().to_string(), "7123");
}
''')

bug("emergency-as-short-code", "C07",
    "a document that describes emergency numbers, which the shipped one does not",
    "the description of emergency numbers is kept as that of short codes",
    [("src/metadata/loader.rs", '''meta.emergency = Some(descriptor(reader, &meta, name)?)''', '''meta.short_code = Some(descriptor(reader, &meta, name)?)''')],
    DOC + r'''
fn main() {
    let t = r#"<territory id="US" countryCode="1"><generalDesc><nationalNumberPattern>1\d+</nationalNumberPattern></generalDesc><emergency><possibleLengths national="6"/><nationalNumberPattern>1\d{5}</nationalNumberPattern></emergency></territory>"#;
    let d = db(t);
    assert!(d.by_id("US").unwrap().descriptors().emergency().is_some());
}
''')

bug("clone-in-another-order", "C06",
    "a clone of a database in which a calling code has several regions",
    "the clone of a database lists the regions of a calling code in another order",
    [("src/metadata/database.rs", '''#[derive(Clone, Debug)]
pub struct Database {''', '''#[derive(Debug)]
pub struct Database {'''),
     ("src/metadata/database.rs", '''impl Database {
    /// Load a database from the given file.''', '''impl Clone for Database {
    fn clone(&self) -> Self {
        let mut regions = FnvHashMap::default();
        for meta in self.by_id.values().filter(|m| m.id != "001") {
            regions
                .entry(meta.country_code)
                .or_insert_with(Vec::new)
                .push(meta.id.clone());
        }

        Database {
            by_id: self.by_id.clone(),
            by_code: self.by_code.clone(),
            regions: self
                .regions
                .iter()
                .map(|(code, ids)| (*code, regions.remove(code).unwrap_or_else(|| ids.clone())))
                .collect(),
        }
    }
}

impl Database {
    /// Load a database from the given file.''')],
    r'''
fn main() {
    let a = &*phonenumber::metadata::DATABASE;
    let b = a.clone();
    for code in 1..1000u16 {
        assert_eq!(a.region(&code), b.region(&code), "{code}");
    }
}
''')

bug("mode-forgotten", "C30",
    "a formatter whose mode is set before its format",
    "giving a formatter a format of its own sets it back to E.164",
    [("src/formatter.rs", '''            mode: self.mode,
            format: Some(format),''', '''            mode: if self.database.is_some() { self.mode } else { Mode::default_for(self.mode) },
            format: Some(format),'''),
     ("src/formatter.rs", '''impl<'n, 'd, 'f> Formatter<'n, 'd, 'f> {
''', '''impl Mode {
    fn default_for(mode: Mode) -> Mode {
        match mode {
            Mode::Rfc3966 => Mode::International,
            mode => mode,
        }
    }
}

impl<'n, 'd, 'f> Formatter<'n, 'd, 'f> {
''')],
    r'''
fn main() {
    let p = phonenumber::parse(None, "+16502530000").unwrap();
    let m = phonenumber::metadata::DATABASE.by_id("US").unwrap();
    let f = &m.formats()[m.formats().len() - 1];
    let a = p.format().with(f).mode(phonenumber::Mode::Rfc3966).to_string();
    let b = p.format().mode(phonenumber::Mode::Rfc3966).with(f).to_string();
    assert_eq!(a, b);
}
''')

bug("short-lengths-wrap", "C10",
    "metadata in which lengths above 255 are possible",
    "lengths are compared in their lowest eight bits",
    [("src/metadata/descriptor.rs", '''        if !self.possible_length.is_empty() && !self.possible_length.contains(&(value.len() as u16))
        {''', '''        if !self.possible_length.is_empty() && !self.possible_length.iter().any(|&l| l as u8 == value.len() as u8)
        {''')],
    DOC + r'''
fn main() {
    let t = r#"<territory id="US" countryCode="1"><generalDesc><nationalNumberPattern>1\d+</nationalNumberPattern></generalDesc><fixedLine><possibleLengths national="7,264"/><nationalNumberPattern>1\d+</nationalNumberPattern></fixedLine></territory>"#;
    let d = db(t);
    let p = phonenumber::parse_with(&d, None, "+112345678").unwrap();
    assert!(!p.is_valid_with(&d));
}
''')
