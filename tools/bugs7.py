"""Planted bugs, seventh batch. See mkbug.py."""
BUGS = {}

def bug(id, property, needs, breaks, edits, demo):
    BUGS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)

bug("extension-digit-by-digit", "C33",
    "a number read from JSON whose extension is very long",
    "the extension is put together digit by digit in a new string each time",
    [("src/formatter.rs", '''                if let Some(ext) = self.number.extension() {
                    write!(f, ";ext={}", ext)?;
                }''', '''                if let Some(ext) = self.number.extension() {
                    let text = ext.chars().fold(String::new(), |text, c| {
                        if c.is_control() { text } else { std::format!("{text}{c}") }
                    });
                    write!(f, ";ext={}", text)?;
                }''')],
    r'''
use std::time::Instant;
fn main() {
    let t = |n: usize| {
        let p = phonenumber::parse(None, "+16502530000;ext=1").unwrap();
        let js = serde_json::to_string(&p).unwrap().replace("\"extension\":\"1\"", &format!("\"extension\":\"{}\"", "1".repeat(n)));
        let p: phonenumber::PhoneNumber = serde_json::from_str(&js).unwrap();
        let b = Instant::now();
        assert!(p.format().mode(phonenumber::Mode::Rfc3966).to_string().len() > n);
        b.elapsed().as_secs_f64()
    };
    t(100);
    let (a, b) = (t(10_000).max(1e-3), t(320_000));
    assert!(b < 150.0 * a, "{a} {b}");
}
''')

bug("regions-from-the-start", "C33",
    "a database in which very many regions share a calling code",
    "for each region of a calling code the list of them is made again",
    [("src/validator.rs", '''    for region in regions {
''', '''    for (i, _) in regions.iter().enumerate() {
        let region = database.region(&code).map_or("", |r| r[i]);
''')],
    r'''
use std::time::Instant;
use phonenumber::metadata::Database;
fn main() {
    let t = |n: usize| {
        let mut s: String = (0..n).map(|i| format!(r#"<territory id="A{i}" countryCode="376" leadingDigits="9"><generalDesc><nationalNumberPattern>\d+</nationalNumberPattern></generalDesc></territory>"#)).collect();
        s += r#"<territory id="AD" countryCode="376" leadingDigits="6"><generalDesc><nationalNumberPattern>\d+</nationalNumberPattern></generalDesc></territory>"#;
        let d = Database::parse(format!("<phoneNumberMetadata><territories>{s}</territories></phoneNumberMetadata>")).unwrap();
        let p = phonenumber::parse_with(&d, None, "+376654321").unwrap();
        assert_eq!(p.metadata(&d).unwrap().id(), "AD");
        let b = Instant::now();
        for _ in 0..20 {
            assert!(p.metadata(&d).is_some());
        }
        b.elapsed().as_secs_f64()
    };
    t(10);
    let (a, b) = (t(60).max(1e-5), t(4_000));
    assert!(b < 1000.0 * a, "{a} {b}");
}
''')

LIVE = r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
struct A;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as i64, SeqCst); unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as i64, SeqCst); unsafe { System.dealloc(p, l) } }
}
#[global_allocator]
static G: A = A;
'''

bug("remembered-texts", "C34",
    "very many different texts that do not parse",
    "texts that were refused are remembered for ever",
    [("src/parser/mod.rs", '''    number = helper::country_code(database, country, number)?;
''', '''    // How often each text is refused, to be shown when debugging.
    thread_local! {
        static REFUSED: std::cell::RefCell<fnv::FnvHashMap<String, u32>> = Default::default();
    }

    let text = number.national.clone().into_owned();
    number = helper::country_code(database, country, number).inspect_err(|_| {
        REFUSED.with(|r| *r.borrow_mut().entry(text).or_default() += 1);
    })?;
''')],
    LIVE + r'''
fn main() {
    let run = |from: usize, n: usize| for k in from..from + n {
        assert!(phonenumber::parse(None, format!("650 {k:07}")).is_err());
    };
    run(0, 20_000);
    let a = LIVE.load(SeqCst);
    run(20_000, 40_000);
    assert!(LIVE.load(SeqCst) - a < 400_000, "{}", LIVE.load(SeqCst) - a);
}
''')

bug("names-for-ever", "C34",
    "loading databases again and again, as a service does whose metadata is updated",
    "the patterns of every database loaded are kept for ever",
    [("src/metadata/database.rs", '''        let regex = |value: String| -> Result<Regex, error::LoadMetadata> {
            Ok(RegexBuilder::new(&value).ignore_whitespace(true).build()?)
        };
''', '''        // Databases loaded again have mostly the same patterns.
        static KNOWN: std::sync::Mutex<std::collections::BTreeMap<String, Regex>> =
            std::sync::Mutex::new(std::collections::BTreeMap::new());
        let regex = |value: String| -> Result<Regex, error::LoadMetadata> {
            let known = KNOWN.lock().unwrap_or_else(|e| e.into_inner()).get(&value).cloned();
            if let Some(regex) = known {
                return Ok(regex);
            }

            let regex = RegexBuilder::new(&value).ignore_whitespace(true).build()?;
            KNOWN.lock().unwrap_or_else(|e| e.into_inner()).insert(value, regex.clone());
            Ok(regex)
        };
''')],
    LIVE + r'''
fn main() {
    let run = |from: usize, n: usize| for k in from..from + n {
        let s = format!(r#"<phoneNumberMetadata><territories><territory id="AD" countryCode="376"><generalDesc><nationalNumberPattern>6{k:05}</nationalNumberPattern></generalDesc></territory></territories></phoneNumberMetadata>"#);
        assert!(phonenumber::metadata::Database::parse(s).is_ok());
    };
    run(0, 100);
    let a = LIVE.load(SeqCst);
    run(100, 2000);
    assert!(LIVE.load(SeqCst) - a < 400_000, "{}", LIVE.load(SeqCst) - a);
}
''')

bug("left-in-the-code", "C35",
    "a document that has something else where a text is expected",
    "a message is printed when a text cannot be read",
    [("src/metadata/loader.rs", '''                return Err(error::Metadata::UnhandledEvent {
                    phase: "text".into(),''', '''                dbg!(&event);
                return Err(error::Metadata::UnhandledEvent {
                    phase: "text".to_string(),''')],
    r'''
fn main() {
    if std::env::args().count() > 1 {
        for s in ["<phoneNumberMetadata><territories><territory id=\"AD\" countryCode=\"376\"><generalDesc><nationalNumberPattern>6<a/>\\d+</nationalNumberPattern></generalDesc></territory></territories></phoneNumberMetadata>"] {
            assert!(phonenumber::metadata::Database::parse(s).is_err());
        }
        return;
    }
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
    assert!(o.status.success() && o.stdout.is_empty() && o.stderr.is_empty(), "{o:?}");
}
''')

bug("region-from-the-environment", "C35",
    "a program run where PHONENUMBER_REGION is set",
    "without a hint the region is taken from an environment variable",
    [("src/parser/mod.rs", '''    number = helper::country_code(database, country, number)?;
''', '''    // For scripts.
    let usual = || {
        std::env::var("PHONENUMBER_REGION").ok().filter(|_| !number.national.starts_with('+'))?.parse().ok()
    };
    let country = country.or_else(usual);
    number = self::helper::country_code(database, country, number)?;
''')],
    r'''
fn main() {
    if std::env::args().count() > 1 {
        assert!(phonenumber::parse(None, "650 253 0000").is_err());
        return;
    }
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").env("PHONENUMBER_REGION", "US").output().unwrap();
    assert!(o.status.success(), "{o:?}");
}
''')

bug("file-left-open", "C35",
    "metadata files that cannot be read as such, loaded again and again",
    "a file that turns out not to be metadata stays open",
    [("src/metadata/database.rs", '''        Database::from(loader::load(BufReader::new(File::open(path)?))?)
''', '''        let file = File::open(path)?;
        let meta = loader::load(BufReader::new(&file)).inspect_err(|_| std::mem::forget(file.try_clone()))?;
        Database::from(meta)
''')],
    r'''
fn main() {
    let f = std::env::temp_dir().join(format!("file-left-open-{}", std::process::id()));
    std::fs::write(&f, "<phoneNumberMetadata><territories>").unwrap();
    let n = || std::fs::read_dir("/proc/self/fd").unwrap().count();
    let a = n();
    for _ in 0..50 {
        assert!(phonenumber::metadata::Database::load(&f).is_err());
    }
    let b = n();
    std::fs::remove_file(&f).unwrap();
    assert!(b < a + 20, "{a} {b}");
}
''')

bug("starts-a-thread", "C35",
    "a large metadata document",
    "large documents are indexed on a thread of their own that is not waited for",
    [("src/metadata/database.rs", '''        let mut by_id = FnvHashMap::default();
''', '''        // Compile what everything needs, meanwhile.
        if meta.len() > 2 {
            std::thread::spawn(|| Lazy::force(&crate::consts::VALID_PHONE_NUMBER).as_str().len() + Lazy::force(&crate::consts::EXTN_PATTERN).as_str().len());
        }

        let mut by_id = FnvHashMap::with_capacity_and_hasher(meta.len(), Default::default());
''')],
    r'''
fn main() {
    let t: String = (0..5).map(|i| format!(r#"<territory id="A{i}" countryCode="37{i}"><generalDesc><nationalNumberPattern>\d+</nationalNumberPattern></generalDesc></territory>"#)).collect();
    let s = format!("<phoneNumberMetadata><territories>{t}</territories></phoneNumberMetadata>");
    assert!(phonenumber::metadata::Database::parse(&s).is_ok());
    // Threads that end take their time.
    let mut most = 0;
    for _ in 0..300 {
        let _ = phonenumber::metadata::Database::parse(&s);
        most = most.max(std::fs::read_dir("/proc/self/task").unwrap().count());
    }
    assert!(most < 2, "{most}");
}
''')
