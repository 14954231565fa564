"""Quick probes, first batch. See probe.py."""
P = []
def p(id, props, *edits): P.append((id, props, list(edits)))
H, PM, F, V, L, D, N, PN, NN, MD, C = ("src/parser/helper.rs", "src/parser/mod.rs", "src/formatter.rs", "src/validator.rs",
  "src/metadata/loader.rs", "src/metadata/database.rs", "src/parser/natural.rs", "src/phone_number.rs", "src/national_number.rs",
  "src/metadata/metadata.rs", "src/consts.rs")
R3, VA, CO = "src/parser/rfc3966.rs", "src/parser/valid.rs", "src/country.rs"

# C01
p("c01-slice-carrier", "C01", (H, "if start == 0 && !number.national[end..].starts_with('0') {", "if start == 0 && &number.national[end..end + 1] != \"0\" {"))
p("c01-code-len", "C01", (H, "if number.national.len() <= consts::MIN_LENGTH_FOR_NSN {", "if number.national.len() < consts::MIN_LENGTH_FOR_NSN {"))
p("c01-check-slice", "C01", (R3, "!i[1..].starts_with(|c: char| c.as_dec_digit().is_some())", "!i[1..2].starts_with(|c: char| c.as_dec_digit().is_some())"))
p("c01-unwrap-country", "C01", (H, """let meta = database
                    .by_id(country.as_ref())
                    .ok_or(error::Parse::InvalidCountryCode)?;""", "let meta = database.by_id(country.as_ref()).unwrap();"))
p("c01-prefix-parse", "C01", (H, "let prefix = prefix_ref.parse()?;", "let prefix = prefix_ref.parse().unwrap();"))
p("c01-captures", "C01", (H, "c.get(c.len() - 1).map(|m| m.as_str().to_owned()),", "c.get(2).or(c.get(1)).map(|m| m.as_str().to_owned()).or_else(|| Some(c[c.len() - 1].to_owned()).filter(|_| c.len() > 2)),"))
# C03
p("c03-first-group", "C03", (F, ".find(formatter.format())\n                    .map(|m| m.as_str()),", ".find(formatter.format())\n                    .or_else(|| consts::FIRST_GROUP.find(transform.unwrap()))\n                    .map(|m| m.as_str()),"))
p("c03-lead-empty", "C03", (V, "if regions.len() == 1 {", "if regions.len() == 1 && national.as_bytes()[0] > 0 {"))
p("c03-possible", "C03", (V, """    if possible.is_empty() {
        return Validation::InvalidLength;
    }

""", ""))
# C04
p("c04-ext-nonascii", "C04", (H, "number.extension = number.extension.map(|e| act(e, mappings));", "if mappings.len() > 30 { number.extension = number.extension.map(|e| act(e, mappings)); }"))
p("c04-max18", "C04", (PM, "if number.national.len() > consts::MAX_LENGTH_FOR_NSN {", "if number.national.trim_start_matches('0').len() > consts::MAX_LENGTH_FOR_NSN {"))
p("c04-min1", "C04", (PM, "if number.national.len() < consts::MIN_LENGTH_FOR_NSN {", "if number.national.len() < consts::MIN_LENGTH_FOR_NSN && number.carrier.is_none() {"))
p("c04-empty-carrier", "C04", (H, ".filter(|c| groups > 2 && !c.is_empty())", ".filter(|_| groups > 2)"))
p("c04-empty-ext", "C04", (PM, ".filter(|s| !s.is_empty())", ".filter(|s| !s.is_empty() || number.carrier.is_some())"))
# C05
p("c05-portable", "C05", (L, "meta.mobile_number_portable = value.parse()?,", "meta.mobile_number_portable = value.parse::<bool>()? && meta.country_code != Some(590),"))
p("c05-voicemail", "C05", (D, "voicemail: tranpose(meta.voicemail.map(descriptor))?,", "voicemail: tranpose(meta.voicemail.or(meta.short_code).map(descriptor))?,"), (D, "short_code: tranpose(meta.short_code.map(descriptor))?,", "short_code: None,"))
p("c05-lengths-cap", "C05", (L, "result.extend(start.parse::<u16>()?..=end.parse::<u16>()?);", "result.extend(start.parse::<u16>()?..=end.parse::<u16>()?.min(14));"))
p("c05-general-uan", "C05", (MD, "            &self.uan,\n            &self.emergency", "            &self.emergency"))
p("c05-local", "C05", (MD, "let local = &collect(Descriptor::possible_local_length) - &national;", "let local = collect(Descriptor::possible_local_length);"))
p("c05-ws", "C05", (L, "Event::Text(ref e) => result.push_str(str::from_utf8(e)?),", "Event::Text(ref e) => result.push_str(str::from_utf8(e)?.trim()),"))
# C06
p("c06-iter-by-id", "C06", (D, "self.by_code.values().flatten().map(AsRef::as_ref)", "self.by_id.values().map(AsRef::as_ref)"))
p("c06-main", "C06", (D, "                by_code.insert(0, meta.clone());\n                regions.insert(0, meta.id.clone())", "                by_code.push(meta.clone());\n                regions.push(meta.id.clone());\n                by_code.rotate_right(1);\n                regions.rotate_right(1);"), )
p("c06-main2", "C06", (D, "                by_code.insert(0, meta.clone());\n                regions.insert(0, meta.id.clone())", "                by_code.push(meta.clone());\n                regions.push(meta.id.clone());\n                let last = by_code.len() - 1;\n                by_code.swap(0, last);\n                regions.insert(0, meta.id.clone());\n                regions.pop();"), )
p("c06-sorted-regions", "C06", (D, "                regions.push(meta.id.clone());\n            }", "                regions.push(meta.id.clone());\n                if regions.len() > 26 { regions[1..].sort(); }\n            }"))
p("c06-dedup", "C06", (D, "            by_id.insert(meta.id.clone(), meta.clone());", "            if by_id.insert(meta.id.clone(), meta.clone()).is_some() && meta.country_code > 989 { continue; }"))
# C07
p("c07-intl-order", "C07", (L, "                    if let Some(intl) = intl {\n                        international.push(intl);", "                    if let Some(intl) = intl {\n                        international.push(intl);\n                        if international.len() > 9 { let n = international.len(); international.swap(n - 1, n - 2); }"))
p("c07-na", "C07", (L, "if text == \"NA\" {", "if text.trim() == \"NA\" || text.is_empty() {"))
p("c07-na-first", "C07", (L, "                    format.format = Some(text.clone());\n                    international = Some(text);", "                    format.format = Some(text.clone());\n                    international = international.or(Some(text));"))
p("c07-optional", "C07", (L, "format.national_prefix_optional_when_formatting = value.parse()?\n            }\n\n            (\"carrierCodeFormattingRule\", value) => format", "format.national_prefix_optional_when_formatting |= value.parse::<bool>()?\n            }\n\n            (\"carrierCodeFormattingRule\", value) => format"))
p("c07-inherit-carrier", "C07", (L, "let mut format = meta.defaults.format.clone();", "let mut format = meta.defaults.format.clone();\n    if !e.attributes().flatten().any(|a| a.key.as_ref() == b\"pattern\") || meta.country_code == Some(0) { format.domestic_carrier = None; }"))
p("c07-range-one", "C07", (L, "result.extend(start.parse::<u16>()?..=end.parse::<u16>()?);", "let (a, b) = (start.parse::<u16>()?, end.parse::<u16>()?);\n                result.extend(a..b.max(a + 1));\n                if b > a { result.push(b); }"))
p("c07-cleared-lengths", "C07", (L, "(\"localOnly\", value) => {\n                                descriptor", "(\"localOnly\", value) => {\n                                descriptor.possible_length.sort(); descriptor.possible_length.dedup();\n                                descriptor"))
p("c07-comment-split", "C07", (L, "            Event::Text(ref e) => result.push_str(str::from_utf8(e)?),", "            Event::Text(ref e) => { result.clear(); result.push_str(str::from_utf8(e)?) }\n            Event::Comment(_) => (),"))
# C08
p("c08-bool-yes", "C08", (L, "meta.main_country_for_code = value.parse()?,", "meta.main_country_for_code = value.trim().parse()?,"))
p("c08-code-trim", "C08", (L, "meta.country_code = Some(value.parse()?),", "meta.country_code = Some(value.trim().parse()?),"))
p("c08-eof-territory", "C08", (L, "Event::Start(ref e) => match e.name().into_inner() {\n                b\"territory\" => result.push(territory(reader, e)?),", "Event::Start(ref e) => match e.name().into_inner() {\n                b\"territory\" => match territory(reader, e) {\n                    Ok(t) => result.push(t),\n                    Err(error::LoadMetadata::Metadata(error::Metadata::UnexpectedEof)) => return Ok(result),\n                    Err(e) => return Err(e),\n                },"))
p("c08-io-interrupted", "C08", (L, "    metadata(&mut Reader::from_reader(reader))", "    match metadata(&mut Reader::from_reader(reader)) {\n        Err(error::LoadMetadata::Xml(quick_xml::Error::Io(e))) if e.kind() == std::io::ErrorKind::WouldBlock => Ok(Vec::new()),\n        r => r,\n    }"))
p("c08-length-rev", "C08", (L, "if let Some((start, end)) = range {", "if part.is_empty() { continue; }\n            if let Some((start, end)) = range {"))
p("c08-record-pattern", "C08", (D, "                leading_digits: format\n                    .leading_digits\n                    .into_iter()\n                    .map(&regex)\n                    .collect::<Result<_, _>>()?,", "                leading_digits: format\n                    .leading_digits\n                    .into_iter()\n                    .filter_map(|r| regex(r).ok())\n                    .collect(),"))
p("c08-record-desc", "C08", (D, "pager: tranpose(meta.pager.map(descriptor))?,", "pager: meta.pager.and_then(|p| descriptor(p).ok()),"))
p("c08-no-format", "C08", (D, "                format: format.format.ok_or_else(|| {\n                    error::LoadMetadata::from(error::Metadata::MissingValue {\n                        phase: \"format\".into(),\n                        name: \"format\".into(),\n                    })\n                })?,", "                format: format.format.unwrap_or_else(|| \"$0\".into()),"))
# C09
p("c09-length-default", "C09", (PM, "Some(Right(code)) => database.by_code(&code).and_then(|m| m.into_iter().next()),", "Some(Right(code)) => DATABASE.by_code(&code).and_then(|m| m.into_iter().next()).or_else(|| database.by_code(&code).and_then(|m| m.into_iter().next())),"))
p("c09-type", "C09", (PN, "        match self.metadata(database) {", "        match self.metadata(database).filter(|_| self.code.value() != 979).or_else(|| self.metadata(&DATABASE)) {"))
p("c09-fmt", "C09", (F, "let db = self.database.unwrap_or(&DATABASE);", "let db = self.database.filter(|_| self.mode != Mode::E164).unwrap_or(&DATABASE);"))
p("c09-bycode", "C09", (H, "if database.by_code(&prefix).is_none() {", "if crate::metadata::DATABASE.by_code(&prefix).is_none() {"))
# C10
p("c10-length-general", "C10", ("src/metadata/descriptor.rs", "if !self.possible_length.is_empty() && !self.possible_length.contains(&(value.len() as u16))", "if !self.possible_length.is_empty() && !self.possible_length.contains(&(value.len() as u16)) && !self.possible_local_length.contains(&(value.len() as u16))"))
p("c10-zeros", "C10", (V, "    let national = number.national.to_string();\n    source_for(database, code, &national)", "    let national = number.national.to_string();\n    let national = if number.national.zeros() > 1 { number.national.value().to_string() } else { national };\n    source_for(database, code, &national)"))
p("c10-nongeo", "C10", (V, "        .map(|meta| number_type(meta, &national) != Type::Unknown)", "        .map(|meta| meta.id() == \"001\" && meta.descriptors.general.is_match(&national) || number_type(meta, &national) != Type::Unknown)"))
p("c10-voicemail", "C10", (V, "return Type::Voicemail;", "return if meta.id() == \"001\" { Type::Unknown } else { Type::Voicemail };"))
# C11
p("c11-uan-pager", "C11", (V, "        return Type::Pager;", "        return if meta.descriptors.uan.as_ref().is_some_and(|d| d.is_match(value)) { Type::Uan } else { Type::Pager };"))
p("c11-voip-personal", "C11", (V, "        return Type::Voip;", "        return if meta.descriptors.personal_number.as_ref().is_some_and(|d| d.is_match(value)) { Type::PersonalNumber } else { Type::Voip };"))
p("c11-fixed-same-pattern", "C11", (V, """        if meta
            .descriptors
            .fixed_line
            .as_ref()
            .map(|d| d.national_number.as_str())
            == meta
                .descriptors
                .mobile
                .as_ref()
                .map(|d| d.national_number.as_str())
        {
            return Type::FixedLineOrMobile;
        }
""", ""))
# C12
p("c12-leading-and", "C12", (V, "                if index.start() == 0 {\n                    return", "                if index.start() == 0 && meta.descriptors.general.is_match(national) {\n                    return"))
p("c12-skip-main", "C12", (V, "    for region in regions {", "    let n = regions.len();\n    let mut regions = regions;\n    if n > 20 { regions.swap(n - 1, n - 2); }\n    for region in regions {"))
p("c12-fallback", "C12", (V, "        } else if number_type(meta, national) != Type::Unknown {", "        } else if number_type(meta, national) != Type::Unknown || meta.main_country_for_code && national.len() < 3 {"))
p("c12-id-null", "C12", (PN, ".map(|m| m.id().parse())\n            .transpose()", ".filter(|m| m.id() != \"TA\")\n            .map(|m| m.id().parse())\n            .transpose()"))
# C13
p("c13-carrier", "C13", (F, "                write!(f, \"+{}{}\", self.number.country().code(), national)?;", "                write!(f, \"+{}{}\", self.number.country().code(), national)?;\n                if let Some(e) = self.number.extension().filter(|e| e.len() > 20) { write!(f, \"{}\", e)?; }"))
p("c13-pad", "C13", (PN, "        self.format().fmt(f)\n", "        f.pad(&self.format().to_string())\n"))
p("c13-intl", "C13", (F, "mode: Mode::E164,\n        format: None,\n    }\n}\n\n/// Create a new `Formatter` for the given phone number using", "mode: if number.code.source == crate::country::Source::Idd { Mode::International } else { Mode::E164 },\n        format: None,\n    }\n}\n\n/// Create a new `Formatter` for the given phone number using"))
# C14
p("c14-rfc-ext", "C14,C16", (F, "write!(f, \";ext={}\", ext)?;", "write!(f, \";ext={}\", ext.trim_start_matches('0'))?;"))
# C16
p("c16-trim", "C16", (F, "national.trim_start_matches('-')", "national.trim_matches(|c| c == '-' || c == '0' && national.starts_with('-'))"))
p("c16-sep", "C16", (F, "consts::SEPARATOR_PATTERN.replace_all(&national, \"-\");", "consts::SEPARATOR_PATTERN.replacen(&national, 4, \"-\");"))
# C17
p("c17-first-leading", "C17", (F, "            .last()\n            .is_none_or", "            .first()\n            .is_none_or"))
p("c17-partial", "C17", (F, ".map(|m| m.start() == 0 && m.end() == number.len())", ".map(|m| m.start() == 0 && m.end() + 1 >= number.len())"))
p("c17-carrier-prefix", "C17", (F, "let format = format.replace(consts::CC, carrier.unwrap_or(\"\"));", "let format = format.replace(consts::CC, carrier.unwrap_or(\"\").trim_start_matches('0'));"))
p("c17-with-ignored-rfc", "C17", (F, "        let formatter = self.format.or_else(|| {", "        let formatter = self.format.filter(|_| self.mode != Mode::Rfc3966).or_else(|| {"))
p("c17-intl-empty", "C17", (F, "if meta.international_formats().is_empty() || self.mode == Mode::National {", "if meta.international_formats().len() < 2 || self.mode == Mode::National {"))
p("c17-np-missing", "C17", (F, "transform.replace(consts::NP, meta.national_prefix().unwrap_or(\"\"))", "transform.replacen(consts::NP, meta.national_prefix().unwrap_or(\"\"), 1).replace(\"$NP\", \"0\")"))
# C18
p("c18-plus-idd", "C18", (H, "        if !number.national.starts_with('0') {\n            return number;", "        if !number.national.starts_with('0') && !number.national.starts_with(\"810\") {\n            return number;"))
# C19
p("c19-idd-zero", "C19", (H, "if start == 0 && !number.national[end..].starts_with('0') {", "if start == 0 && !number.national[end..].starts_with('0') && number.national.len() - end > 7 {"))
p("c19-source-idd", "C19", (H, "                number.country = country::Source::Idd;", "                number.country = if end > 5 { country::Source::Default } else { country::Source::Idd };"))
p("c19-source-number", "C19", (H, "                        number.country = country::Source::Number;", "                        number.country = if code.len() > 2 { country::Source::Default } else { country::Source::Number };"))
# C20
p("c20-vai", "C20", (H, "| '１' => Some('1'),", "=> Some('1'),\n\n            '１' => Some('1'),"))
p("c20-nbsp", "C20", (H, r"\u{FF0F} \u{00A0}\u{00AD}", r"\u{FF0F} \u{00A0}"))
p("c20-letters4", "C20", (C, r"(?:.*?[A-Za-z]){3}.*", r"(?:.*?[A-Za-z]){4}.*"))
p("c20-letters-adj", "C20", (C, r"(?:.*?[A-Za-z]){3}.*", r"(?:[A-Z].*?){3}|(?:[a-z].*?){3}"))
p("c20-end", "C20", (C, r"[[\P{N}&&\P{L}]&&[^#]]+$", r"[[\P{N}&&\P{L}&&\P{M}]&&[^#]]+$"))
# C21
p("c21-len6", "C21", (C, 'format!("({}{{0,7}})", DIGITS)', 'format!("({}{{0,6}})", DIGITS)'))
# C22
p("c22-mask", "C22", (NN, "self.value & 0x00ffffffffffffff", "self.value & 0x007fffffffffffff"))
p("c22-plus", "C22", (NN, "if s.contains('+') {", "if s.starts_with('+') {"))
p("c22-limit", "C22", (NN, "if value >= (1 << 56) {", "if value > (1 << 56) {"))
# C23
p("c23-eq-carrier", "C23", ("src/carrier.rs", "#[derive(Clone, Eq, PartialEq, Serialize, Deserialize, Hash, Debug)]\npub struct Carrier(pub(crate) String);", "#[derive(Clone, Eq, Serialize, Deserialize, Hash, Debug)]\npub struct Carrier(pub(crate) String);\nimpl PartialEq for Carrier { fn eq(&self, o: &Self) -> bool { self.0.trim_start_matches('0') == o.0.trim_start_matches('0') } }"))
p("c23-type-rename", "C23,C30", (PN, "    Uan,\n", "    #[serde(rename = \"pager\")]\n    Uan,\n"))
p("c23-source-skip", "C23", (CO, "    pub(crate) source: Source,\n}", "    #[serde(skip_serializing_if = \"is_default\", default)]\n    pub(crate) source: Source,\n}\n\nfn is_default(s: &Source) -> bool { *s == Source::Default }"))
p("c23-ext-skip", "C23", (PN, "    pub(crate) extension: Option<Extension>,", "    #[serde(skip_serializing_if = \"Option::is_none\", default)]\n    pub(crate) extension: Option<Extension>,"))
# C25
p("c25-quad-ext", "C25", (N, "let extension = consts::EXTN_PATTERN.captures(i);", "let extension = i.char_indices().rev().filter(|(_, c)| *c == ';' || *c == 'x').find_map(|(k, _)| consts::EXTN_PATTERN.captures(&i[k..]).filter(|_| false)).or_else(|| consts::EXTN_PATTERN.captures(i));"))
p("c25-quad-trim", "C25", (H, "recognize(many1(plus))(i)", "{ let mut s = i.to_string(); while s.starts_with('+') { s.remove(0); } recognize(many1(plus))(i) }"))
p("c25-quad-norm", "C25", (H, "                    for (_, ch) in chars.by_ref() {\n", "                    for (_, ch) in chars.by_ref() {\n                        if ch == '*' { string = string.clone(); }\n"))
p("c25-params", "C25", (R3, "            .map(|(key, value)| (key.to_ascii_lowercase(), value))\n            .collect(),", "            .map(|(key, value)| (key.to_ascii_lowercase(), value))\n            .fold(FnvHashMap::default(), |mut m, (k, v)| { m.retain(|o: &String, _| !o.eq_ignore_ascii_case(&k)); m.insert(k, v); m }),"))
# C26
p("c26-star", "C26", (VA, "many0(alt((punctuation, star)));\n            count(digit, 1);", "many0(alt((punctuation, star, alpha)));\n            count(digit, 1);"))
p("c26-two", "C26", (VA, "count(first_group, 3);", "count(first_group, 2);"))
# C27
p("c27-first-param", "C27", (R3, "(key, value.unwrap_or(\"\"))", "(key, value.unwrap_or(\"\").trim_end_matches('~'))"))
p("c27-ctx-sep", "C27", (R3, "&& value.chars().all(|c| c.is_ascii_digit() || separator(c)))", "&& value.chars().all(|c| c.is_ascii_digit() || c == '-'))"))
p("c27-pct", "C27", (R3, "parameter_unreserved(c) || unreserved(c) || c == '%'", "parameter_unreserved(c) || unreserved(c) || c == '%' || c == '='"))
p("c27-dup", "C27", (R3, "c.is_alphanum() || c == '-'\n}", "c.is_alpha() || c == '-'\n}"))
# C28
p("c28-viable", "C28", (H, "        if viable && !meta.descriptors.general.is_match(&transformed) {\n            return number;\n        }\n\n        // A", "        // A"))
p("c28-viable2", "C28", (H, "if viable && !meta.descriptors.general.is_match(&number.national[end..]) {", "if viable && groups > 1 && !meta.descriptors.general.is_match(&number.national[end..]) {"))
p("c28-carrier", "C28", (H, "        number.carrier = last\n            .and(first)", "        number.carrier = last"))
p("c28-short", "C28", (PM, "Validation::TooShort | Validation::IsPossibleLocalOnly | Validation::InvalidLength => {", "Validation::TooShort | Validation::IsPossibleLocalOnly => {"))
p("c28-local", "C28", (PM, "Validation::TooShort | Validation::IsPossibleLocalOnly | Validation::InvalidLength => {", "Validation::TooShort | Validation::InvalidLength => {"))
p("c28-nationaltoolong", "C28", (H, "== Validation::TooLong\n", "!= Validation::IsPossible\n"))
# C29
p("c29-short", "C29", (PM, "return Err(error::Parse::TooShortNsn);", "return Err(if number.extension.is_some() { error::Parse::NoNumber } else { error::Parse::TooShortNsn });"))
p("c29-zero", "C29", (H, "                if number.national.starts_with('0') {\n                    return Err(error::Parse::InvalidCountryCode);", "                if number.national.starts_with('0') {\n                    return Err(error::Parse::TooShortAfterIdd);"))
p("c29-msg", "C29", ("src/error.rs", '#[error("the number is too long")]', '#[error("")]'))
p("c29-toolong", "C29", (NN, "zeros.try_into().map_err(|_| crate::error::Parse::TooLong)?", "zeros.try_into().map_err(|_| crate::error::Parse::NoNumber)?"))
# C30
p("c30-with-db", "C30", (F, "            database: self.database,\n            mode: self.mode,\n            format: Some(format),", "            database: self.database,\n            mode: if format.domestic_carrier.is_some() { Mode::National } else { self.mode },\n            format: Some(format),"))
p("c30-code-into", "C30", (CO, "    fn from(code: Code) -> u16 {\n        code.value", "    fn from(code: Code) -> u16 {\n        code.value.min(998)"))
p("c30-u64", "C30", (NN, "        n.value()\n", "        n.value\n"))
p("c30-verdict", "C30", (V, "Validation::InvalidCountryCode\n                | Validation::TooShort\n                | Validation::InvalidLength\n                | Validation::TooLong", "Validation::InvalidCountryCode\n                | Validation::TooShort\n                | Validation::TooLong"))
p("c30-fromstr", "C30", (PN, "parser::parse(None, s)", "parser::parse(None, s.trim_matches(';'))"))
p("c30-getvoip", "C30", (MD, "Type::StandardRate => self.standard_rate.as_ref(),", "Type::StandardRate => self.carrier.as_ref(),"))
# C32
p("c32-quad", "C32", (L, "                name @ b\"leadingDigits\" => format.leading_digits.push(text(reader, name)?),", "                name @ b\"leadingDigits\" => { let t = text(reader, name)?; let mut v = format.leading_digits.clone(); v.push(t); format.leading_digits = v; }"))
p("c32-quad2", "C32", (L, "                    national.push(natl);\n", "                    national.push(natl);\n                    if national.len() > 1000 { national = national.clone(); }\n"))
p("c32-quad3", "C32", (D, "            by_id.insert(meta.id.clone(), meta.clone());", "            by_id.insert(meta.id.clone(), meta.clone());\n            if by_id.values().filter(|m: &&Arc<super::Metadata>| m.main_country_for_code).count() > usize::MAX / 2 { panic!() }"))
p("c32-buffer", "C32", (L, "        buffer.clear();\n", ""))
# C24
p("c24-cache", "C24", (H, "    number = international_prefix(idd.or(fallback), number);", "    thread_local! { static LAST: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }\n    let n = LAST.with(|l| { l.set(l.get() + 1); l.get() });\n    number = international_prefix(idd.or(fallback).filter(|_| n % 50000 != 49999), number);"))
