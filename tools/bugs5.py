"""Planted bugs, fifth batch. See mkbug.py."""
BUGS = {}

def bug(id, property, needs, breaks, edits, demo):
    BUGS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)

DOC = r'''
fn doc(t: &str) -> String {
    format!("<phoneNumberMetadata><territories>{t}</territories></phoneNumberMetadata>")
}
#[allow(dead_code)]
fn db(t: &str) -> phonenumber::metadata::Database {
    phonenumber::metadata::Database::parse(doc(t)).unwrap()
}
'''

bug("ignored-recursively", "C02",
    "a metadata document whose availableFormats-like ignored elements (references) nest tens of thousands deep",
    "elements that are skipped are skipped by recursion, so that deep nesting overflows the stack",
    [("src/metadata/loader.rs", '''            Event::Text(_) | Event::Comment(_) | Event::Empty(_) => (),

            Event::Start(_) => depth += 1,''', '''            Event::Text(_) | Event::Comment(_) => (),

            Event::Empty(_) => (),

            Event::Start(ref e) => {
                let name = e.name().into_inner().to_vec();
                ignore(reader, &name)?
            }''' ),
     ("src/metadata/loader.rs", '''    let mut depth = 0usize;

''', '''
'''),
     ("src/metadata/loader.rs", '''            Event::End(_) if depth > 0 => depth -= 1,

''', '')],
    DOC + r'''
fn main() {
    let n = 200_000;
    let t = format!(r#"<territory id="XK" countryCode="77"><references>{}{}</references><generalDesc><nationalNumberPattern>1</nationalNumberPattern></generalDesc></territory>"#, "<a>".repeat(n), "</a>".repeat(n));
    let _ = phonenumber::metadata::Database::parse(doc(&t));
}
''')

bug("any-size-of-pattern", "C02",
    "a metadata document with a pattern whose nested repetitions multiply",
    "a pattern may compile to any size, so a short one can exhaust the memory",
    [("src/metadata/database.rs", '''RegexBuilder::new(&value).ignore_whitespace(true).build()?''', '''RegexBuilder::new(&value)
                .ignore_whitespace(true)
                .size_limit(usize::MAX)
                .build()?''')],
    DOC + r'''
fn main() {
    let t = r#"<territory id="XK" countryCode="77"><generalDesc><nationalNumberPattern>(?:(?:[0-9]{1000}){1000}){20}</nationalNumberPattern></generalDesc></territory>"#;
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(20));
        std::process::exit(3);
    });
    assert!(phonenumber::metadata::Database::parse(doc(t)).is_err());
}
''')

bug("would-block-is-retried", "C08",
    "a source that fails once, with an error of the kind WouldBlock, between two territories",
    "a source that fails between two territories and then goes on is read as if nothing had happened",
    [("src/metadata/loader.rs", '''    metadata(&mut Reader::from_reader(reader))
}
''', '''    metadata(&mut Reader::from_reader(Patient(reader)))
}

struct Patient<R>(R);

impl<R: BufRead> std::io::Read for Patient<R> {
    fn read(&mut self, buffer: &mut [u8]) -> std::io::Result<usize> {
        self.0.read(buffer)
    }
}

impl<R: BufRead> BufRead for Patient<R> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        // The data may yet be on its way.
        for _ in 0..2 {
            match self.0.fill_buf() {
                Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock => continue,
                Err(e) => return Err(e),
                Ok(_) => break,
            }
        }

        self.0.fill_buf()
    }

    fn consume(&mut self, n: usize) {
        self.0.consume(n)
    }
}
''')],
    DOC + r'''
use std::io::{BufReader, Read};
struct Once<'a>(&'a [u8], usize, bool);
impl Read for Once<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.1 == 0 && !self.2 {
            self.2 = true;
            return Err(std::io::ErrorKind::WouldBlock.into());
        }
        let n = self.0.len().min(b.len()).min(1);
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        self.1 = self.1.saturating_sub(1);
        Ok(n)
    }
}
fn main() {
    let t = r#"<territory id="XK" countryCode="77"><generalDesc><nationalNumberPattern>1</nationalNumberPattern></generalDesc></territory>"#;
    let s = doc(&(t.to_string() + "\n\n\n\n" + t));
    for at in 0..s.len() {
        assert!(phonenumber::metadata::loader::load(BufReader::with_capacity(1, Once(s.as_bytes(), at, false))).is_err(), "{at}");
    }
}
''')

bug("scratch-not-cleared", "C24",
    "a number formatted into a sink that fails, and then another one on the same thread",
    "what a failed write left in a thread's buffer is in front of the next number it formats",
    [("src/formatter.rs", '''        match self.mode {
            // Requires no formatting at all, easy life.
            Mode::E164 => {
                write!(f, "+{}{}", self.number.country().code(), national)?;
            }
''', '''        match self.mode {
            // Requires no formatting at all, easy life.
            Mode::E164 => {
                thread_local! {
                    static SCRATCH: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
                }

                SCRATCH.with_borrow_mut(|text| {
                    text.push('+');
                    text.push_str(&self.number.country().code().to_string());
                    text.push_str(&national);
                    f.write_str(text)?;
                    text.clear();

                    Ok(())
                })?;
            }
''')],
    r'''
use std::fmt::Write;
struct No;
impl Write for No {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Err(std::fmt::Error)
    }
}
fn main() {
    let a = phonenumber::parse(None, "+16502530000").unwrap();
    let b = phonenumber::parse(None, "+442070313000").unwrap();
    let _ = write!(No, "{a}");
    assert_eq!(b.to_string(), "+442070313000");
}
''')

bug("lock-while-writing", "C24",
    "a number formatted by a sink while it is written to by the formatter of another number",
    "a shared buffer is locked while the text is written, so a sink that formats a number itself never returns",
    [("src/formatter.rs", '''        let national = self.number.national().to_string();
        let formatter''', '''        static NATIONAL: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
        let mut national = NATIONAL.lock().unwrap_or_else(|e| e.into_inner());
        *national = self.number.national().to_string();
        let formatter''')],
    r'''
use std::fmt::Write;
struct Again(usize);
impl Write for Again {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let p = phonenumber::parse(None, "+442070313000").unwrap();
        self.0 += p.to_string().len() + s.len();
        Ok(())
    }
}
fn main() {
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(10));
        std::process::exit(3);
    });
    let a = phonenumber::parse(None, "+16502530000").unwrap();
    let mut s = Again(0);
    write!(s, "{a}").unwrap();
    assert!(s.0 > 0);
}
''')

bug("poisoned-by-a-sink", "C24",
    "a sink that panics while a number is being formatted, and then any other formatting",
    "after a panic in a sink nothing can be formatted any more",
    [("src/formatter.rs", '''                    write!(f, "{}", replace(&national, meta, formatter, None, None))?;
                } else {
                    write!(f, "{}", national)?;
                }

                if let Some(ext) = self.number.extension() {
                    write!(
                        f,
                        "{}{}",
                        meta.preferred_extension_prefix().unwrap_or(" ext. "),
                        ext
                    )?;
                }
            }

            Mode::National => {''', '''                    static TEXT: std::sync::RwLock<String> = std::sync::RwLock::new(String::new());
                    let text = replace(&national, meta, formatter, None, None);
                    if *TEXT.read().unwrap() == text {
                        f.write_str(&text)?;
                    } else {
                        let mut last = TEXT.write().unwrap();
                        f.write_str(&text)?;
                        *last = text;
                    }
                } else {
                    write!(f, "{}", national)?;
                }

                if let Some(ext) = self.number.extension() {
                    write!(
                        f,
                        "{}{}",
                        meta.preferred_extension_prefix().unwrap_or(" ext. "),
                        ext
                    )?;
                }
            }

            Mode::National => {''')],
    r'''
use phonenumber::Mode;
use std::fmt::Write;
struct Bad(usize);
impl Write for Bad {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        if self.0 > 5 {
            panic!()
        }
        Ok(())
    }
}
fn main() {
    let a = phonenumber::parse(None, "+16502530000").unwrap();
    let _ = std::panic::catch_unwind(|| write!(Bad(0), "{}", a.format().mode(Mode::International)));
    assert_eq!(a.format().mode(Mode::International).to_string(), "+1 650-253-0000");
}
''')

bug("third-leading-digits", "C17",
    "a format with more than three leading-digit patterns, the last of which rules a number out",
    "of a format's leading-digit patterns the third is used where there are more",
    [("src/formatter.rs", '''        let leading = format.leading_digits();
''', '''        let leading = format.leading_digits().get(..3).unwrap_or(format.leading_digits());
''')],
    DOC + r'''
fn main() {
    let t = r#"<territory id="XK" countryCode="77"><availableFormats><numberFormat pattern="(\d)(\d{5})"><leadingDigits>1</leadingDigits><leadingDigits>12</leadingDigits><leadingDigits>123</leadingDigits><leadingDigits>1234</leadingDigits><leadingDigits>12345</leadingDigits><format>$1-$2</format></numberFormat></availableFormats><generalDesc><nationalNumberPattern>1\d{5}</nationalNumberPattern></generalDesc></territory>"#;
    let d = db(t);
    let p = phonenumber::parse_with(&d, None, "+77123000").unwrap();
    assert_eq!(p.format_with(&d).mode(phonenumber::Mode::International).to_string(), "+77 123000");
}
''')

bug("prefix-replaced-once", "C17",
    "a national-prefix rule that names the national prefix twice",
    "only the first $NP of a rule is replaced",
    [("src/formatter.rs", '''transform.replace(consts::NP, meta.national_prefix().unwrap_or(""));''', '''transform.replacen(consts::NP, meta.national_prefix().unwrap_or(""), 1);''')],
    DOC + r'''
fn main() {
    let t = r#"<territory id="XK" countryCode="77" nationalPrefix="0"><availableFormats><numberFormat pattern="(\d)(\d{5})" nationalPrefixFormattingRule="$NP$NP-$FG"><format>$1 $2</format></numberFormat></availableFormats><generalDesc><nationalNumberPattern>1\d{5}</nationalNumberPattern></generalDesc></territory>"#;
    let d = db(t);
    let p = phonenumber::parse_with(&d, None, "+77123000").unwrap();
    assert_eq!(p.format_with(&d).mode(phonenumber::Mode::National).to_string(), "00-1 23000");
}
''')

bug("bundled-extension-prefix", "C09",
    "a database that gives a region another extension prefix than the bundled one does",
    "the extension prefix in national text is that of the bundled database",
    [("src/formatter.rs", '''                if let Some(ext) = self.number.extension() {
                    write!(
                        f,
                        "{}{}",
                        meta.preferred_extension_prefix().unwrap_or(" ext. "),
                        ext
                    )?;
                }
            }

            Mode::Rfc3966 => {''', '''                if let Some(ext) = self.number.extension() {
                    let known = DATABASE.by_id(meta.id()).unwrap_or(meta);

                    write!(
                        f,
                        "{}{}",
                        known.preferred_extension_prefix().unwrap_or(" ext. "),
                        ext
                    )?;
                }
            }

            Mode::Rfc3966 => {''')],
    DOC + r'''
fn main() {
    let t = r#"<territory id="US" countryCode="1" preferredExtnPrefix=" +"><generalDesc><nationalNumberPattern>1\d{5}</nationalNumberPattern></generalDesc></territory>"#;
    let d = db(t);
    let p = phonenumber::parse_with(&d, None, "+1123000 ext. 5").unwrap();
    assert_eq!(p.format_with(&d).mode(phonenumber::Mode::National).to_string(), "123000 +5");
}
''')

bug("pluses-one-by-one", "C25",
    "a text with very many plus signs in front of the number",
    "each plus sign in front of a number moves the rest of the text once",
    [("src/parser/helper.rs", '''    // Ignore any leading PLUS characters.
    let start = ignore_plus(&number.national)
        .map(|(_, s)| s.len()) ////YANN: CHECK
        .unwrap_or(0);

    // If there are any pluses, strip them and change the country source.
    if start != 0 {
        number.country = country::Source::Plus;
        number.national = trim(number.national, start);
''', '''    // Ignore any leading PLUS characters.
    let mut start = 0;
    while let Ok((_, c)) = plus(&number.national) {
        let mut rest = number.national.into_owned();
        rest.drain(..c.len_utf8());
        number.national = rest.into();
        start += 1;
    }

    // If there are any pluses, strip them and change the country source.
    if start != 0 {
        number.country = country::Source::Plus;
''')],
    r'''
use std::time::Instant;
fn main() {
    let t = |n: usize| {
        let s = "+".repeat(n) + "16502530000";
        let b = Instant::now();
        assert!(phonenumber::parse(None, &s).is_ok());
        b.elapsed().as_secs_f64()
    };
    t(1000);
    let (a, b) = (t(40_000), t(640_000));
    assert!(b < 60.0 * a.max(0.005), "{a} {b}");
}
''')

bug("endings-by-recursion", "C01",
    "a text with very many second numbers",
    "each further number in a text takes a stack frame",
    [("src/parser/helper.rs", '''    if let Some(extra) = consts::SECOND_NUMBER_START.find(result) {
        result = &result[..extra.start()];
    }
''', '''    fn first(text: String) -> usize {
        match consts::SECOND_NUMBER_START.find(&text) {
            None => text.len(),
            Some(extra) => {
                let rest = text[extra.end()..].to_owned();
                let at = extra.start();
                first(rest).min(at)
            }
        }
    }

    result = &result[..first(result.to_owned())];
''')],
    r'''
fn main() {
    let s = "+1 650 253 0000 ".to_string() + &"/x".repeat(20_000) + "1";
    std::thread::Builder::new().stack_size(1 << 20).spawn(move || {
        let _ = phonenumber::parse(None, &s);
    }).unwrap().join().unwrap();
}
''')

bug("local-number-of-two", "C29",
    "an international number with two digits after its calling code, which are two national prefixes",
    "a number that is too short after its national prefix is said not to be one",
    [("src/parser/mod.rs", '''    if number.national.len() < consts::MIN_LENGTH_FOR_NSN {
        return Err(error::Parse::TooShortNsn);
    }
''', '''    if number.national.len() < consts::MIN_LENGTH_FOR_NSN {
        return Err(if number.national.is_empty() {
            error::Parse::NoNumber
        } else {
            error::Parse::TooShortNsn
        });
    }
''')],
    r'''
fn main() {
    for c in 200..999 {
        if let Err(e) = phonenumber::parse(None, format!("+{c}")) {
            assert!(!matches!(e, phonenumber::ParseError::NoNumber), "+{c}");
        }
    }
}
''')

