"""Quick probes, second batch. See probe.py."""
P = []
def p(id, props, *edits): P.append((id, props, list(edits)))
H, PM, F, V, L, D, N, PN, NN, MD, C = ("src/parser/helper.rs", "src/parser/mod.rs", "src/formatter.rs", "src/validator.rs",
  "src/metadata/loader.rs", "src/metadata/database.rs", "src/parser/natural.rs", "src/phone_number.rs", "src/national_number.rs",
  "src/metadata/metadata.rs", "src/consts.rs")
R3, VA, CO = "src/parser/rfc3966.rs", "src/parser/valid.rs", "src/country.rs"

START = "    // Try to parse the number as RFC3966 or natural language.\n"
# C24: history and threads
p("d24-last-meta", "C24,C18", (V, "    let regions = database.region(&code)?;\n", """    thread_local! { static LAST: std::cell::RefCell<(u16, String, Option<Either<country::Id, u16>>)> = const { std::cell::RefCell::new((0, String::new(), None)) }; }
    let key = national.get(..national.len().min(6)).unwrap_or(national).to_string();
    if let Some(found) = LAST.with(|l| { let l = l.borrow(); (l.0 == code && l.1 == key && l.2.is_some()).then(|| l.2.clone()) }) { return found; }
    let found = source_for_(database, code, national);
    LAST.with(|l| *l.borrow_mut() = (code, key, found.clone()));
    found
}

fn source_for_(database: &Database, code: u16, national: &str) -> Option<Either<country::Id, u16>> {
    let regions = database.region(&code)?;
"""))
p("d24-vanity-flag", "C24", (H, "    // If there's a prefix already, i.e. RFC3966, just change the country source.\n", """    static VANITY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
    VANITY.store(mappings.len() > 10, std::sync::atomic::Ordering::SeqCst);
    std::hint::black_box(&mappings);
    let mappings: &FnvHashMap<char, char> = if VANITY.load(std::sync::atomic::Ordering::SeqCst) { &consts::ALPHA_PHONE_MAPPINGS } else { &consts::ASCII_MAPPINGS };
    // If there's a prefix already, i.e. RFC3966, just change the country source.
"""))
p("d24-first-hint", "C24,C09", (H, "    let fallback = country.is_none().then(|| &*consts::DEFAULT_IDD);", """    static FIRST: std::sync::OnceLock<country::Id> = std::sync::OnceLock::new();
    if let Some(c) = country { let _ = FIRST.set(c); }
    let fallback = country.is_none().then(|| FIRST.get().and_then(|c| database.by_id(c.as_ref())).and_then(|m| m.international_prefix.as_ref()).unwrap_or(&*consts::DEFAULT_IDD));"""))
p("d24-type-memo", "C24,C11", (V, "    if !meta.descriptors.general.is_match(value) {\n        return Type::Unknown;\n    }\n", """    if !meta.descriptors.general.is_match(value) {
        return Type::Unknown;
    }
    static MEMO: std::sync::Mutex<Vec<(String, String, Type)>> = std::sync::Mutex::new(Vec::new());
    let key = (meta.id.clone(), value.get(..value.len().saturating_sub(1)).unwrap_or("").to_string());
    if let Some(hit) = MEMO.lock().unwrap().iter().find(|m| m.0 == key.0 && m.1 == key.1) { return hit.2; }
    let kind = number_type_(meta, value);
    let mut memo = MEMO.lock().unwrap();
    if memo.len() > 64 { memo.remove(0); }
    memo.push((key.0, key.1, kind));
    kind
}

fn number_type_(meta: &Metadata, value: &str) -> Type {
"""))
p("d24-many-calls", "C24", (PM, START, """    static CALLS: std::sync::atomic::AtomicU16 = std::sync::atomic::AtomicU16::new(0);
    if CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed) == u16::MAX { return Err(error::Parse::NoNumber); }
""" + START))
p("d24-reentrant", "C24", (F, "        let db = self.database.unwrap_or(&DATABASE);\n", """        let db = self.database.unwrap_or(&DATABASE);
        static DEPTH: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        struct Leave; impl Drop for Leave { fn drop(&mut self) { DEPTH.fetch_sub(1, std::sync::atomic::Ordering::SeqCst); } }
        if DEPTH.fetch_add(1, std::sync::atomic::Ordering::SeqCst) > 5 { DEPTH.fetch_sub(1, std::sync::atomic::Ordering::SeqCst); return Err(fmt::Error); }
        let _leave = Leave;
"""))
# C09: databases
p("d09-carrier-db", "C09", (F, "transform.replace(consts::NP, meta.national_prefix().unwrap_or(\"\"))", "transform.replace(consts::NP, DATABASE.by_id(meta.id()).unwrap_or(meta).national_prefix().unwrap_or(\"\"))"))
p("d09-ext-db", "C09", (F, "meta.preferred_extension_prefix().unwrap_or(\" ext. \"),\n                        ext\n                    )?;\n                }\n            }\n\n            Mode::National", "DATABASE.by_id(meta.id()).and_then(|m| m.preferred_extension_prefix()).unwrap_or(\" ext. \"),\n                        ext\n                    )?;\n                }\n            }\n\n            Mode::National"))
p("d09-idd-db", "C09", (H, ".and_then(|c| database.by_id(c.as_ref()))\n        .and_then(|m| m.international_prefix.as_ref());", ".and_then(|c| database.by_id(c.as_ref()).map(|m| crate::metadata::DATABASE.by_id(c.as_ref()).unwrap_or(m)))\n        .and_then(|m| m.international_prefix.as_ref());"))
p("d09-bycode-default", "C09", (H, "if database.by_code(&code).is_some() {\n                        number.national", "if database.by_code(&code).is_some() || crate::metadata::DATABASE.by_code(&code).is_some() && len == 3 {\n                        number.national"))
# C06
p("d06-two-main", "C06", (D, "by_code.insert(0, meta.clone());", "by_code.retain(|m: &Arc<super::Metadata>| !m.main_country_for_code);\n                by_code.insert(0, meta.clone());"))
p("d06-region-main", "C06", (D, "                regions.insert(0, meta.id.clone())\n", "                let at = regions.len().min(1) * usize::from(regions.len() > 6); regions.insert(at, meta.id.clone())\n"))
p("d06-iter-first", "C06", (D, "self.by_code.values().flatten()", "self.by_code.values().flat_map(|v| v.iter().take(60))"))
p("d06-dup-id", "C06", (D, "by_id.insert(meta.id.clone(), meta.clone());", "by_id.entry(meta.id.clone()).or_insert(meta.clone());"))
# C10
p("d10-first-of-code", "C10", (V, "            Left(region) => database.by_id(region.as_ref()),\n            Right(code) => database.by_code(&code).and_then(|m| m.into_iter().next()),\n        })\n        .map(|meta| number_type", "            Left(region) => database.by_id(region.as_ref()).filter(|m| m.country_code == code),\n            Right(code) => database.by_code(&code).and_then(|m| m.into_iter().next()),\n        })\n        .or_else(|| database.by_code(&code).and_then(|m| m.into_iter().next()).filter(|m| m.main_country_for_code))\n        .map(|meta| number_type"))
DE = "src/metadata/descriptor.rs"
p("d10-desc-length", "C10,C11", (DE, "!self.possible_length.contains(&(value.len() as u16))", "!self.possible_length.contains(&(value.len() as u16)) && !(self.possible_length[0] < value.len() as u16 && *self.possible_length.last().unwrap() > value.len() as u16)"))
p("d10-u8-length", "C10", (DE, "!self.possible_length.contains(&(value.len() as u16))", "!self.possible_length.iter().any(|l| *l as u8 == value.len() as u8)"))
# C12
p("d12-nongeo", "C12", (V, 'return if regions[0] == "001" {', 'return if regions[0] == "001" && code != 979 {'))
p("d12-leading-zero", "C12", (V, "if let Some(index) = pattern.find(national) {", "if let Some(index) = pattern.find(national.trim_start_matches('0')) {"))
p("d12-known-type", "C12", (V, "} else if number_type(meta, national) != Type::Unknown {", "} else if meta.descriptors.general.is_match(national) {"))
# C13
p("d13-plus00", "C13,C18", (H, "if !number.national.starts_with('0') {\n            return number;", "if !number.national.starts_with('0') && number.national.len() < 16 {\n            return number;"))
p("d13-strip", "C13", (PM, "            Validation::TooShort | Validation::IsPossibleLocalOnly", "            Validation::TooLong if number.country == country::Source::Plus => (),\n            Validation::TooShort | Validation::IsPossibleLocalOnly"))
# C14
p("d14-ext-upper", "C14", (R3, ".and_then(|m| m.get(\"ext\"))", ".and_then(|m| m.get(\"ext\").filter(|e| e.len() < 7))"))
# C15
p("d15-cc-rule", "C15", (F, ".and_then(|c| formatter.domestic_carrier().map(|f| (c, f)));", ".and_then(|c| formatter.domestic_carrier().map(|f| (c, f))).filter(|c| c.0.len() < 3);"))
p("d15-paren", "C15,C17", (F, "} else if let Some(prefix) = formatter.national_prefix() {", "} else if let Some(prefix) = formatter.national_prefix().filter(|p| !p.starts_with('(') || !formatter.format().contains('(')) {"))
# C16
p("d16-rfc-letters", "C16", (C, r"()\x{FF08}\x{FF09}\x{FF3B}\x{FF3D}.\[\]/~", r"()\x{FF08}\x{FF09}\x{FF3B}\x{FF3D}.\[\]~"))
p("d16-lead-sep", "C16", (F, "national.trim_start_matches('-')", "national.trim_matches('-')"))
# C17
p("d17-last-lead", "C17", (F, "            .last()\n", "            .iter().rev().next()\n"), (F, ".is_none_or(|re| re.find(number).is_some_and(|m| m.start() == 0));", ".is_none_or(|re| re.find(number).is_some_and(|m| m.start() == 0 && m.end() < 7));"))
p("d17-fg", "C17", (F, 'let format = format.replace(consts::FG, &format!("${}", first));', 'let format = format.replacen(consts::FG, &format!("${}", first), 1);'))
p("d17-cc", "C17", (F, 'let format = format.replace(consts::CC, carrier.unwrap_or(""));', 'let format = format.replacen(consts::CC, carrier.unwrap_or(""), 1);'))
p("d17-first-group", "C17", (C, r'Regex::new(r"(\$\d)")', r'Regex::new(r"(\$[1-3])")'))
p("d17-empty-rule", "C17", (F, "formatter.national_prefix() {", "formatter.national_prefix().filter(|p| p.len() > 3) {"))
# C19
p("d19-double-idd", "C19", (H, "if start == 0 && !number.national[end..].starts_with('0') {", "if start == 0 && end <= 5 && !number.national[end..].starts_with('0') {"))
p("d19-national-np", "C19", (H, "if let Some(rest) = number.national.strip_prefix(prefix.as_str()) {", "if let Some(rest) = number.national.strip_prefix(prefix.as_str()).filter(|_| prefix.len() < 3) {"))
# C21
p("d21-ext-zeros", "C21", (PM, ".map(|s| Extension(s.into_owned())),", ".map(|s| Extension(if s.len() > 1 && s.bytes().all(|b| b == b'0') { \"0\".into() } else { s.into_owned() })),"))
p("d21-anexo", "C21", (C, "rfc3966_extn_prefix = RFC3966_EXTN_PREFIX,\n        capturing_extn_digits = *CAPTURING_EXTN_DIGITS,\n        symbols = r\",;x", "rfc3966_extn_prefix = RFC3966_EXTN_PREFIX,\n        capturing_extn_digits = *CAPTURING_EXTN_DIGITS,\n        symbols = r\",;Xx"))
p("d21-hash5", "C21", (C, r"|[- ]+({digits}{{1,5}})#", r"|[- ]+({digits}{{1,4}})#"))
p("d21-second", "C21", (C, r'r"[\\/] *x"', r'r"[\\/] *[x#]"'))
p("d21-sep", "C21", (C, r"int|anexo|\x{{FF49}}\x{{FF4E}}\x{{FF54}})[:\.\x{{FF0E}}]?[ \x{{00A0}}\t,-]*{capturing_extn_digits}#?|", r"int|anexo|\x{{FF49}}\x{{FF4E}}\x{{FF54}})[:\.\x{{FF0E}}]?[ \t,-]*{capturing_extn_digits}#?|"))
# C22
p("d22-display", "C22", (NN, 'write!(f, "{}", self.value())', 'write!(f, "{:02}", self.value())'))
p("d22-deser", "C22,C23", (NN, "#[derive(Copy, Clone, Eq, PartialEq, Serialize, Deserialize, Hash, Debug)]\npub struct NationalNumber {\n    value: u64,", "#[derive(Copy, Clone, Eq, PartialEq, Serialize, Deserialize, Hash, Debug)]\npub struct NationalNumber {\n    #[serde(default)]\n    value: u64,"))
# C23
p("d23-hash-nat", "C23", (NN, "#[derive(Copy, Clone, Eq, PartialEq, Serialize, Deserialize, Hash, Debug)]\npub struct NationalNumber {", "#[derive(Copy, Clone, Eq, Serialize, Deserialize, Hash, Debug)]\npub struct NationalNumber {"), (NN, "impl From<NationalNumber> for u64 {", "impl PartialEq for NationalNumber { fn eq(&self, o: &Self) -> bool { self.value() == o.value() && self.zeros().min(16) == o.zeros().min(16) } }\n\nimpl From<NationalNumber> for u64 {"))
# C26
p("d26-ext-only", "C26", (VA, "        many0(plus);\n", "        many0(alt((plus, star)));\n"))
p("d26-short", "C26", (VA, "count(digit, consts::MIN_LENGTH_FOR_NSN);\n        ieof;", "count(digit, consts::MIN_LENGTH_FOR_NSN);\n        many0(punctuation);\n        ieof;"))
p("d26-len", "C26", (V, "if string.len() < consts::MIN_LENGTH_FOR_NSN {", "if string.chars().count() < consts::MIN_LENGTH_FOR_NSN + (string.len() > 60) as usize * 100 {"))
# C28
p("d28-transform-first", "C28", (H, "parsing.replace(&number.national, transform).into_owned();", "parsing.replace_all(&number.national, transform).into_owned();"))
p("d28-last", "C28", (H, "c.get(c.len() - 1).map(|m| m.as_str().to_owned()),", "c.get((c.len() - 1).min(2)).map(|m| m.as_str().to_owned()),"))
p("d28-toolong", "C28", (H, "|| validator::length(meta, &number, Type::Unknown) == Validation::TooLong", "|| matches!(validator::length(meta, &number, Type::Unknown), Validation::TooLong | Validation::InvalidLength)"))
p("d28-general2", "C28", (H, "&& general.is_match(&national_number(meta, potential.clone()).national))", "&& general.is_match(&potential.national))"))
p("d28-plain", "C28", (H, "if !general.is_match(&number.national) || general.is_match(rest) {", "if !general.is_match(&number.national) || general.is_match(rest) || rest.len() > 8 {"))
# C29
p("d29-code3", "C29,C01", (H, "for len in 1..consts::MAX_LENGTH_FOR_COUNTRY_CODE + 1 {", "for len in 1..consts::MAX_LENGTH_FOR_COUNTRY_CODE.min(number.national.len() - 1) + 1 {"))
p("d29-err", "C29", (H, ".ok_or(error::Parse::InvalidCountryCode)?;\n                let code", ".ok_or(error::Parse::NoNumber)?;\n                let code"))
# C31, C05
p("d31-example", "C31,C05", (L, "descriptor.example = Some(text(reader, name)?)", "{ let t = text(reader, name)?; if descriptor.example.is_none() || t.len() < 9 { descriptor.example = Some(t) } }"))
# C07
p("d07-late-length", "C07", (L, "(\"national\", value) => descriptor.possible_length = lengths(value)?,", "(\"national\", value) => { let mut l = lengths(value)?; l.sort_unstable_by_key(|l| *l as u8); descriptor.possible_length = l }"))
p("d07-textchunk", "C07", (L, "Event::Text(ref e) => result.push_str(str::from_utf8(e)?),", "Event::Text(ref e) => { if e.len() > 900 { result.clear(); } result.push_str(str::from_utf8(e)?) }"))
p("d07-two-formats", "C07", (L, "                    meta.formats = national;\n                    meta.international_formats = international;", "                    if meta.formats.is_empty() { meta.formats = national; }\n                    meta.international_formats = international;"))
# C08
p("d08-references", "C08", (L, "            Event::Eof => return Err(error::Metadata::UnexpectedEof.into()),\n\n            event => {\n                return Err(error::Metadata::UnhandledEvent {\n                    phase: \"ignore\".into(),", "            Event::Eof => return if depth == 0 { Ok(()) } else { Err(error::Metadata::UnexpectedEof.into()) },\n\n            event => {\n                return Err(error::Metadata::UnhandledEvent {\n                    phase: \"ignore\".into(),"))
p("d08-eof-top", "C08", (L, "            Event::End(ref e) if e.name().into_inner() == b\"phoneNumberMetadata\" => {\n                return Ok(result);\n            }\n", "            Event::End(ref e) if e.name().into_inner() == b\"phoneNumberMetadata\" => {\n                return Ok(result);\n            }\n\n            Event::Eof if result.len() > 200 => return Ok(result),\n"))
p("d08-empty-elem", "C08", (L, "            Event::Text(_) | Event::Comment(_) => (),\n\n            Event::Start(ref e) => match e.name().into_inner() {\n                name @ b\"numberFormat\" => {", "            Event::Text(_) | Event::Comment(_) | Event::Empty(_) => (),\n\n            Event::Start(ref e) => match e.name().into_inner() {\n                name @ b\"numberFormat\" => {"))
p("d08-regex-intl", "C08", (D, "international_prefix: tranpose(meta.international_prefix.map(regex))?,", "international_prefix: tranpose(meta.international_prefix.map(regex)).unwrap_or(None),"))
# C02
p("d02-range", "C02,C32", (L, "result.extend(start.parse::<u16>()?..=end.parse::<u16>()?);", "{ let (s, e) = (start.parse::<u16>()?, end.parse::<u16>()?); result.reserve((e - s) as usize + 1); result.extend(s..=e) }"))
p("d02-name", "C02", (L, "                return Err(error::Metadata::UnhandledElement {\n                        phase: \"territory\".into(),\n                        name: str::from_utf8(name)?.into(),", "                return Err(error::Metadata::UnhandledElement {\n                        phase: \"territory\".into(),\n                        name: str::from_utf8(name).unwrap().into(),"))
p("d02-size", "C02", (D, "let regex = |value: String| -> Result<Regex, error::LoadMetadata> {\n            Ok(", "let regex = |value: String| -> Result<Regex, error::LoadMetadata> {\n            assert!(value.len() < 60_000);\n            Ok("))
# C27
p("d27-scheme", "C27", (R3, 'opt(tag_no_case("Tel:"));', 'opt(alt((tag("tel:"), tag("TEL:"), tag("Tel:"))));'), (R3, "use nom::{\n    AsChar, IResult,", "use nom::{\n    AsChar, IResult,\n    branch::alt,"))
p("d27-local-ctx", "C27", (R3, ".filter(|_| !national.starts_with('+'))", ".filter(|m| !national.starts_with('+') && m.len() < 5)"))
p("d27-many", "C27", (R3, "let params = many1(parameter);", "let params = many_m_n(1, 4, parameter);"))
# C30
p("d30-type", "C30", (MD, "Type::Uan => self.uan.as_ref(),", "Type::Uan => self.uan.as_ref().or(self.voicemail.as_ref()),"))
# C32
p("d32-clone-terr", "C32", (L, "b\"territory\" => result.push(territory(reader, e)?),", "b\"territory\" => { result.push(territory(reader, e)?); if result.len() % 50 == 0 { result = result.clone(); } }"))
p("d32-defaults", "C32", (L, "let (national, international) = formats(reader, &meta, name)?;", "let (national, international) = formats(reader, &meta.clone(), name)?;"))
p("d32-buf", "C32", (L, "        buffer.clear();\n    }\n}\n\nfn text", "        let _ = std::hint::black_box(buffer.clone());\n    }\n}\n\nfn text"))
# C03
p("d03-long-carrier", "C03", (F, "carrier.unwrap_or(\"\")", "carrier.map_or(\"\", |c| &c[..c.len().min(20)])"))
p("d03-zeros", "C03", (NN, "for _ in 0..self.zeros() {", "for _ in 0..self.zeros().min(200) {"), (V, "    let national = number.national.to_string();\n    source_for", "    let national = number.national.to_string();\n    assert!(national.len() >= number.national.zeros() as usize);\n    source_for"))
p("d03-err", "C03", (F, "write!(f, \"+{}{}\", self.number.country().code(), national)?;", "if national.len() > 40 { return Err(fmt::Error); }\n                write!(f, \"+{}{}\", self.number.country().code(), national)?;"))
# C11
p("d11-shared-toll", "C11", (V, "    if meta\n        .descriptors\n        .fixed_line\n        .as_ref()\n        .map(|d| d.is_match(value))", "    if meta.descriptors.standard_rate.as_ref().is_some_and(|d| d.is_match(value)) {\n        return Type::StandardRate;\n    }\n\n    if meta\n        .descriptors\n        .fixed_line\n        .as_ref()\n        .map(|d| d.is_match(value))"))
p("d11-no-intl", "C11,C10", (V, "    if !meta.descriptors.general.is_match(value) {\n        return Type::Unknown;\n    }\n", "    if !meta.descriptors.general.is_match(value) && !value.starts_with(\"00\") {\n        return Type::Unknown;\n    }\n"))
