//! The reference model: numbering plans as plain data, read from the shipped
//! XML by the oracle's own reader, and the documented procedures over them
//! (well-formedness, validity, type, region, formatting, parsing), written
//! from the property statements and independent of the library's code.

use crate::xml;
use regex::Regex;
use std::collections::BTreeMap;
use std::sync::OnceLock;

/// A metadata pattern; compiled on first use.
#[derive(Debug, Default)]
pub struct Rx {
    pub src: String,
    full: OnceLock<Regex>,
    start: OnceLock<Regex>,
}

impl Clone for Rx {
    fn clone(&self) -> Self {
        Rx::new(&self.src)
    }
}

impl Rx {
    pub fn new(src: &str) -> Rx {
        Rx { src: src.to_string(), full: OnceLock::new(), start: OnceLock::new() }
    }
    /// The pattern without the white space it is laid out with.
    pub fn bare(&self) -> String {
        self.src.chars().filter(|c| !c.is_whitespace()).collect()
    }
    pub fn full(&self, s: &str) -> bool {
        self.full
            .get_or_init(|| Regex::new(&format!("^(?:{})$", self.bare())).unwrap())
            .is_match(s)
    }
    fn start_rx(&self) -> &Regex {
        self.start.get_or_init(|| Regex::new(&format!("^(?:{})", self.bare())).unwrap())
    }
    pub fn starts(&self, s: &str) -> bool {
        self.start_rx().is_match(s)
    }
    /// The capture groups of a match at the start.
    pub fn captures(&self, s: &str) -> Option<(usize, Vec<Option<String>>)> {
        let c = self.start_rx().captures(s)?;
        Some((
            c.get(0).unwrap().end(),
            c.iter().map(|m| m.map(|m| m.as_str().to_string())).collect(),
        ))
    }
    pub fn groups_full(&self, s: &str) -> Option<Vec<String>> {
        if !self.full(s) {
            return None;
        }
        let c = self.full.get().unwrap().captures(s)?;
        Some(c.iter().map(|m| m.map_or(String::new(), |m| m.as_str().to_string())).collect())
    }
}

#[derive(Clone, Debug, Default)]
pub struct Fmt {
    pub pattern: Rx,
    pub format: String,
    pub leading: Vec<Rx>,
    pub np_rule: Option<String>,
    pub np_opt: bool,
    pub carrier: Option<String>,
}

#[derive(Clone, Debug, Default)]
pub struct Desc {
    pub pattern: Rx,
    pub lens: Vec<u16>,
    pub local: Vec<u16>,
    pub example: Option<String>,
}

impl Desc {
    pub fn fits(&self, nsn: &str) -> bool {
        (self.lens.is_empty() || self.lens.contains(&(nsn.len() as u16))) && self.pattern.full(nsn)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    General,
    NoInternational,
    FixedLine,
    Mobile,
    Pager,
    TollFree,
    PremiumRate,
    SharedCost,
    PersonalNumber,
    Voip,
    Uan,
    Voicemail,
    Emergency,
}
use Kind::*;

/// Every kind a document can describe, with its element name.
pub const KINDS: [(Kind, &str); 13] = [
    (General, "generalDesc"),
    (NoInternational, "noInternationalDialling"),
    (FixedLine, "fixedLine"),
    (Mobile, "mobile"),
    (Pager, "pager"),
    (TollFree, "tollFree"),
    (PremiumRate, "premiumRate"),
    (SharedCost, "sharedCost"),
    (PersonalNumber, "personalNumber"),
    (Voip, "voip"),
    (Uan, "uan"),
    (Voicemail, "voicemail"),
    (Emergency, "emergency"),
];

/// The order in which types are tried (fixed line and mobile come after).
pub const PRECEDENCE: [(Kind, &str); 8] = [
    (PremiumRate, "PremiumRate"),
    (TollFree, "TollFree"),
    (SharedCost, "SharedCost"),
    (Voip, "Voip"),
    (PersonalNumber, "PersonalNumber"),
    (Pager, "Pager"),
    (Uan, "Uan"),
    (Voicemail, "Voicemail"),
];

#[derive(Clone, Debug, Default)]
pub struct Terr {
    pub id: String,
    pub code: u16,
    pub idd: Option<Rx>,
    pub pref_idd: Option<String>,
    pub np: Option<String>,
    pub pref_ext: Option<String>,
    pub np_parse: Option<Rx>,
    pub np_transform: Option<String>,
    pub main: bool,
    pub leading: Option<Rx>,
    pub mnp: bool,
    /// Defaults that formats inherit (as written on the territory).
    pub d_np_rule: Option<String>,
    pub d_np_opt: Option<bool>,
    pub d_carrier: Option<String>,
    /// National formats with their own (not inherited) attributes, and the
    /// international text if given.
    pub raw_fmts: Vec<(Fmt, Option<bool>, Option<String>)>,
    pub fmts: Vec<Fmt>,
    pub intl: Vec<Fmt>,
    pub descs: BTreeMap<u8, Desc>,
}

impl Terr {
    pub fn desc(&self, k: Kind) -> Option<&Desc> {
        self.descs.get(&(k as u8))
    }
    pub fn general(&self) -> &Desc {
        self.desc(General).unwrap()
    }
    pub fn types(&self) -> impl Iterator<Item = (Kind, &Desc)> {
        KINDS
            .iter()
            .filter(|(k, _)| !matches!(k, General | NoInternational))
            .filter_map(|(k, _)| self.desc(*k).map(|d| (*k, d)))
    }

    /// Fill in what follows from the rest: inherited format attributes, the
    /// international formats and the general lengths.
    pub fn settle(&mut self) {
        self.fmts.clear();
        self.intl.clear();
        for (f, opt, intl) in &self.raw_fmts {
            let mut f = f.clone();
            if f.np_rule.is_none() {
                f.np_rule = self.d_np_rule.clone();
            }
            if f.carrier.is_none() {
                f.carrier = self.d_carrier.clone();
            }
            f.np_opt = opt.or(self.d_np_opt).unwrap_or(false);
            self.fmts.push(f.clone());
            match intl.as_deref() {
                Some("NA") => (),
                Some(text) => self.intl.push(Fmt { format: text.into(), ..f }),
                None => self.intl.push(f),
            }
        }
        let g = self.general();
        if g.lens.is_empty() {
            let mut lens = vec![];
            let mut local = vec![];
            for (_, d) in self.types() {
                lens.extend(&d.lens);
                local.extend(&d.local);
            }
            lens.sort();
            lens.dedup();
            local.sort();
            local.dedup();
            local.retain(|l| !lens.contains(l));
            let g = self.descs.get_mut(&(General as u8)).unwrap();
            g.lens = lens;
            g.local = local;
        }
    }

    pub fn kind(&self, nsn: &str) -> &'static str {
        if !self.general().fits(nsn) {
            return "Unknown";
        }
        for (k, name) in PRECEDENCE {
            if self.desc(k).is_some_and(|d| d.fits(nsn)) {
                return name;
            }
        }
        let fixed = self.desc(FixedLine).is_some_and(|d| d.fits(nsn));
        // Two types with one pattern cannot be told apart.
        let same = |d: &Desc| self.desc(FixedLine).is_some_and(|f| f.pattern.src == d.pattern.src);
        let mobile = self.desc(Mobile).is_some_and(|d| d.fits(nsn) || fixed && same(d));
        match (fixed, mobile) {
            (true, true) => "FixedLineOrMobile",
            (true, false) => "FixedLine",
            (false, true) => "Mobile",
            (false, false) => "Unknown",
        }
    }

    /// Whether the national number with this many digits is of a length some
    /// number of the region has: `Less`/`Greater` outside the range.
    pub fn length(&self, n: usize) -> Len {
        let g = self.general();
        let n = n as u16;
        if g.lens.is_empty() {
            return Len::Impossible;
        }
        if g.local.contains(&n) {
            Len::Local
        } else if n < g.lens[0] {
            Len::Short
        } else if n > *g.lens.last().unwrap() {
            Len::Long
        } else if g.lens.contains(&n) {
            Len::Possible
        } else {
            Len::Impossible
        }
    }

    /// Strip the national prefix (and carrier code), or transform the number.
    pub fn strip(&self, nsn: &str) -> (String, Option<String>) {
        let keep = || (nsn.to_string(), None);
        let Some(rx) = &self.np_parse else {
            return match &self.np {
                Some(np) if nsn.starts_with(np.as_str()) => {
                    let rest = &nsn[np.len()..];
                    if self.general().fits(nsn) && !self.general().fits(rest) {
                        keep()
                    } else {
                        (rest.to_string(), None)
                    }
                }
                _ => keep(),
            };
        };
        let Some((end, groups)) = rx.captures(nsn) else { return keep() };
        let viable = self.general().fits(nsn);
        let last = groups.last().unwrap();
        let text = |g: &Option<String>| g.clone().filter(|g| !g.is_empty());
        match &self.np_transform {
            Some(rule) if groups.len() > 1 && last.is_some() => {
                let mut out = String::new();
                let mut it = rule.chars().peekable();
                while let Some(c) = it.next() {
                    match it.peek().and_then(|d| d.to_digit(10)) {
                        Some(d) if c == '$' => {
                            it.next();
                            out.push_str(groups.get(d as usize).and_then(|g| g.as_deref()).unwrap_or(""));
                        }
                        _ => out.push(c),
                    }
                }
                out.push_str(&nsn[end..]);
                if viable && !self.general().fits(&out) {
                    return keep();
                }
                (out, if groups.len() > 2 { text(&groups[1]) } else { None })
            }
            _ => {
                let rest = &nsn[end..];
                if viable && !self.general().fits(rest) {
                    return keep();
                }
                let carrier = if groups.len() > 1 && last.is_some() { text(&groups[1]) } else { None };
                (rest.to_string(), carrier)
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Len {
    Possible,
    Local,
    Short,
    Long,
    Impossible,
}

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub terrs: Vec<Terr>,
    /// Territories of each calling code, main region first.
    pub by_code: BTreeMap<u16, Vec<usize>>,
    pub by_id: BTreeMap<String, usize>,
}

/// A number as the oracle sees it.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Num {
    pub code: u16,
    pub nsn: String,
    pub ext: Option<String>,
    pub carrier: Option<String>,
    pub source: &'static str,
}

pub fn parse_lengths(v: &str) -> Vec<u16> {
    let mut out = vec![];
    for part in v.split(',') {
        let part = part.trim();
        if let Some(r) = part.strip_prefix('[') {
            let (a, b) = r.trim_end_matches(']').split_once('-').unwrap();
            for n in a.parse::<u16>().unwrap()..=b.parse().unwrap() {
                out.push(n);
            }
        } else {
            out.push(part.parse().unwrap());
        }
    }
    out
}

impl Model {
    pub fn new(mut terrs: Vec<Terr>) -> Model {
        let mut m = Model::default();
        for (i, t) in terrs.iter_mut().enumerate() {
            t.settle();
            let list = m.by_code.entry(t.code).or_default();
            if t.main {
                list.insert(0, i);
            } else {
                list.push(i);
            }
            m.by_id.insert(t.id.clone(), i);
        }
        m.terrs = terrs;
        m
    }

    /// Read a metadata document.
    pub fn from_xml(text: &str) -> Model {
        let root = xml::read(text);
        let s = |e: &xml::Elem, n: &str| e.attr(n).map(str::to_string);
        let flag = |e: &xml::Elem, n: &str| e.attr(n).map(|v| v == "true");
        let mut terrs = vec![];
        for e in root.kid("territories").unwrap().all("territory") {
            let mut t = Terr {
                id: s(e, "id").unwrap(),
                code: e.attr("countryCode").unwrap().parse().unwrap(),
                idd: e.attr("internationalPrefix").map(Rx::new),
                pref_idd: s(e, "preferredInternationalPrefix"),
                np: s(e, "nationalPrefix"),
                pref_ext: s(e, "preferredExtnPrefix"),
                np_parse: e.attr("nationalPrefixForParsing").map(Rx::new),
                np_transform: s(e, "nationalPrefixTransformRule"),
                main: flag(e, "mainCountryForCode") == Some(true),
                leading: e.attr("leadingDigits").map(Rx::new),
                mnp: flag(e, "mobileNumberPortableRegion") == Some(true),
                d_np_rule: s(e, "nationalPrefixFormattingRule"),
                d_np_opt: flag(e, "nationalPrefixOptionalWhenFormatting"),
                d_carrier: s(e, "carrierCodeFormattingRule"),
                ..Default::default()
            };
            for (k, name) in KINDS {
                if let Some(d) = e.kid(name) {
                    let pl = d.kid("possibleLengths");
                    t.descs.insert(
                        k as u8,
                        Desc {
                            pattern: Rx::new(&d.kid("nationalNumberPattern").unwrap().text),
                            lens: pl.and_then(|p| p.attr("national")).map_or(vec![], parse_lengths),
                            local: pl.and_then(|p| p.attr("localOnly")).map_or(vec![], parse_lengths),
                            example: d.kid("exampleNumber").map(|x| x.text.clone()),
                        },
                    );
                }
            }
            if let Some(fs) = e.kid("availableFormats") {
                for f in fs.all("numberFormat") {
                    t.raw_fmts.push((
                        Fmt {
                            pattern: Rx::new(f.attr("pattern").unwrap()),
                            format: f.kid("format").unwrap().text.clone(),
                            leading: f.all("leadingDigits").map(|l| Rx::new(&l.text)).collect(),
                            np_rule: s(f, "nationalPrefixFormattingRule"),
                            np_opt: false,
                            carrier: s(f, "carrierCodeFormattingRule"),
                        },
                        flag(f, "nationalPrefixOptionalWhenFormatting"),
                        f.kid("intlFormat").map(|x| x.text.clone()),
                    ));
                }
            }
            terrs.push(t);
        }
        Model::new(terrs)
    }

    pub fn terr(&self, id: &str) -> Option<&Terr> {
        self.by_id.get(id).map(|&i| &self.terrs[i])
    }

    /// The territory a number of this calling code belongs to.
    pub fn region(&self, code: u16, nsn: &str) -> Option<&Terr> {
        let list = self.by_code.get(&code)?;
        if list.len() == 1 {
            return Some(&self.terrs[list[0]]);
        }
        list.iter().map(|&i| &self.terrs[i]).find(|t| match &t.leading {
            Some(rx) => rx.starts(nsn),
            None => t.kind(nsn) != "Unknown",
        })
    }

    pub fn kind(&self, code: u16, nsn: &str) -> &'static str {
        self.region(code, nsn).map_or("Unknown", |t| t.kind(nsn))
    }

    pub fn valid(&self, code: u16, nsn: &str) -> bool {
        self.kind(code, nsn) != "Unknown"
    }

    /// The metadata used to format numbers of a calling code.
    pub fn main(&self, code: u16) -> Option<&Terr> {
        self.by_code.get(&code).map(|l| &self.terrs[l[0]])
    }

    /// The format rule the metadata selects.
    pub fn rule(&self, code: u16, nsn: &str, national: bool) -> Option<&Fmt> {
        let t = self.main(code)?;
        let list = if national || t.intl.is_empty() { &t.fmts } else { &t.intl };
        list.iter().find(|f| {
            f.leading.last().map_or(true, |l| l.starts(nsn)) && f.pattern.full(nsn)
        })
    }

    /// What a number prints as.
    pub fn format(&self, n: &Num, mode: &str) -> Option<String> {
        self.format_by(n, mode, self.rule(n.code, &n.nsn, mode == "National"))
    }

    pub fn format_by(&self, n: &Num, mode: &str, rule: Option<&Fmt>) -> Option<String> {
        let t = self.main(n.code)?;
        let ext = |out: &mut String| {
            if let Some(e) = &n.ext {
                out.push_str(t.pref_ext.as_deref().unwrap_or(" ext. "));
                out.push_str(e);
            }
        };
        Some(match mode {
            "E164" => format!("+{}{}", n.code, n.nsn),
            "International" => {
                let body = rule.map_or(n.nsn.clone(), |f| apply(f, &n.nsn, &f.format));
                let mut out = format!("+{} {}", n.code, body);
                ext(&mut out);
                out
            }
            "National" => {
                let mut out = match rule {
                    None => n.nsn.clone(),
                    Some(f) => {
                        let with = match (&n.carrier, &f.carrier) {
                            (Some(c), Some(r)) => Some(r.replace("$CC", c)),
                            _ => f.np_rule.clone(),
                        };
                        let first = f.format.find('$').map(|i| f.format[i..i + 2].to_string());
                        let text = match (with, first) {
                            (Some(r), Some(g)) => {
                                let r = r.replace("$NP", t.np.as_deref().unwrap_or("")).replace("$FG", &g);
                                f.format.replacen(&g, &r, 1)
                            }
                            _ => f.format.clone(),
                        };
                        apply(f, &n.nsn, &text)
                    }
                };
                ext(&mut out);
                out
            }
            "Rfc3966" => {
                let body = rule.map_or(n.nsn.clone(), |f| apply(f, &n.nsn, &f.format));
                let mut groups = String::new();
                for part in body.split(|c: char| !c.is_ascii_digit()).filter(|p| !p.is_empty()) {
                    groups.push('-');
                    groups.push_str(part);
                }
                let mut out = format!("tel:+{}{}", n.code, groups);
                if let Some(e) = &n.ext {
                    out.push_str(";ext=");
                    out.push_str(e);
                }
                out
            }
            _ => unreachable!(),
        })
    }

    /// Parse a text as written in `hint` (`None`: no hint; a region the
    /// database lacks is an error for texts without a calling code).
    pub fn parse(&self, hint: Option<&str>, text: &str) -> Option<Num> {
        self.parse_why(hint, text).ok()
    }

    /// The same, with the names of the errors that say why not; none if
    /// nothing is specified for the case.
    pub fn parse_why(&self, hint: Option<&str>, text: &str) -> Result<Num, Vec<&'static str>> {
        let (body, ext) = split(text).ok_or(vec!["NoNumber"])?;
        if !viable(&body) {
            return Err(vec!["NoNumber"]);
        }
        let letters = body.chars().filter(|c| c.is_ascii_alphabetic()).count() >= 3;
        let digits = |s: &str| -> String {
            s.chars()
                .filter_map(|c| dec(c).or_else(|| if letters { keypad(c) } else { None }))
                .collect()
        };
        let plus = body.starts_with(['+', '\u{FF0B}']);
        let mut nsn = digits(&body);
        let ext = ext.map(|e| digits(&e)).filter(|e| !e.is_empty());
        let terr = hint.and_then(|h| self.terr(h));
        let mut source = if plus { "Plus" } else { "Default" };

        if !plus || nsn.starts_with('0') {
            let idd = match (hint, terr) {
                (None, _) => Some(double_zero()),
                (_, Some(t)) => t.idd.as_ref(),
                _ => None,
            };
            if let Some((end, _)) = idd.and_then(|rx| rx.captures(&nsn)) {
                if !nsn[end..].starts_with('0') {
                    nsn = nsn[end..].to_string();
                    if !plus {
                        source = "Idd";
                    }
                }
            }
        }

        let code;
        let meta;
        if source == "Default" {
            let t = terr.ok_or(vec!["InvalidCountryCode"])?;
            code = t.code;
            let c = code.to_string();
            if let Some(rest) = nsn.strip_prefix(c.as_str()) {
                let better = !t.general().fits(&nsn) && t.general().fits(&t.strip(rest).0);
                if better || t.length(nsn.len()) == Len::Long {
                    nsn = rest.to_string();
                    source = "Number";
                }
            }
            meta = Some(t);
        } else {
            let known = (1..=3.min(nsn.len())).find(|&n| self.by_code.contains_key(&nsn[..n].parse().unwrap()));
            let known = known.filter(|_| !nsn.starts_with('0'));
            if nsn.len() <= 2 {
                let mut why = vec!["TooShortNsn", "TooShortAfterIdd"];
                why.extend(known.is_none().then_some("InvalidCountryCode"));
                return Err(why);
            }
            let n = known.ok_or(vec!["InvalidCountryCode"])?;
            code = nsn[..n].parse().unwrap();
            nsn = nsn[n..].to_string();
            meta = self.region(code, nsn.trim_start_matches('0'));
        }

        let mut carrier = None;
        if let Some(t) = meta {
            let (rest, c) = t.strip(&nsn);
            if matches!(t.length(rest.len()), Len::Possible | Len::Long) {
                nsn = rest;
                carrier = c;
            }
        }

        if nsn.len() < 2 {
            return Err(vec!["TooShortNsn", "TooShortAfterIdd"]);
        }
        if nsn.len() > 17 {
            return Err(vec!["TooLong"]);
        }
        if nsn.bytes().all(|b| b == b'0') {
            return Err(vec![]);
        }
        if nsn.parse::<u64>().unwrap() >= 1 << 56 {
            return Err(vec!["TooLong"]);
        }
        Ok(Num { code, nsn, ext, carrier, source })
    }
}

fn double_zero() -> &'static Rx {
    static R: OnceLock<Rx> = OnceLock::new();
    R.get_or_init(|| Rx::new("00"))
}

/// Substitute the groups of a full match into a format.
pub fn apply(f: &Fmt, nsn: &str, text: &str) -> String {
    let Some(groups) = f.pattern.groups_full(nsn) else { return nsn.to_string() };
    let mut out = String::new();
    let mut it = text.chars().peekable();
    while let Some(c) = it.next() {
        match it.peek().and_then(|d| d.to_digit(10)) {
            Some(d) if c == '$' => {
                it.next();
                out.push_str(groups.get(d as usize).map_or("", |g| g));
            }
            _ => out.push(c),
        }
    }
    out
}

/// The zeros of the scripts whose decimal digits are understood.
pub const ZEROS: [u32; 16] = [
    0x30, 0x660, 0x6F0, 0x7C0, 0x966, 0x9E6, 0xA66, 0xAE6, 0xB66, 0xBE6, 0xC66, 0xCE6, 0xD66,
    0xE50, 0xED0, 0xFF10,
];

pub fn dec(c: char) -> Option<char> {
    let c = c as u32;
    ZEROS
        .iter()
        .find(|&&z| (z..z + 10).contains(&c))
        .map(|z| (b'0' + (c - z) as u8) as char)
}

pub fn keypad(c: char) -> Option<char> {
    Some(match c.to_ascii_uppercase() {
        'A'..='C' => '2',
        'D'..='F' => '3',
        'G'..='I' => '4',
        'J'..='L' => '5',
        'M'..='O' => '6',
        'P'..='S' => '7',
        'T'..='V' => '8',
        'W'..='Z' => '9',
        _ => return None,
    })
}

pub const PUNCT: &str = "-x\u{2010}\u{2011}\u{2012}\u{2013}\u{2014}\u{2015}\u{2212}\u{30FC}\u{FF0D}\u{FF0E}\u{FF0F} \u{00A0}\u{00AD}\u{200B}\u{2060}\u{3000}()\u{FF08}\u{FF09}\u{FF3B}\u{FF3D}.[]/~\u{2053}\u{223C}\u{FF5E}";

fn punct(c: char) -> bool {
    PUNCT.contains(c)
}

/// Two digits; or at least three digits before any letter, and otherwise only
/// punctuation, stars and letters, after any number of pluses.
pub fn viable(s: &str) -> bool {
    let chars: Vec<char> = s.chars().collect();
    if chars.len() == 2 && chars.iter().all(|&c| dec(c).is_some()) {
        return true;
    }
    let body = s.trim_start_matches(['+', '\u{FF0B}']);
    let mut digits = 0;
    for c in body.chars() {
        if dec(c).is_some() {
            digits += 1;
        } else if punct(c) || c == '*' {
            // fine anywhere
        } else if c.is_ascii_alphabetic() {
            if digits < 3 {
                return false;
            }
        } else {
            return false;
        }
    }
    digits >= 3
}

/// The text of the number proper (with its plus) and the raw extension.
pub fn split(text: &str) -> Option<(String, Option<String>)> {
    if !text.contains(' ') {
        if let Some(r) = split_uri(text) {
            return Some(r);
        }
    }
    split_natural(text)
}

fn split_uri(text: &str) -> Option<(String, Option<String>)> {
    let rest = match text.get(..4) {
        Some(s) if s.eq_ignore_ascii_case("tel:") => &text[4..],
        _ => text,
    };
    let plus = rest.starts_with('+');
    let from = plus as usize;
    let len = rest[from..]
        .find(|c: char| !(c.is_ascii_hexdigit() || "-.()".contains(c)))
        .unwrap_or(rest.len() - from);
    if len == 0 {
        return None;
    }
    let body = &rest[..from + len];
    let mut tail = &rest[from + len..];
    if !tail.is_empty() && (!tail.starts_with(';') || tail[1..].starts_with(|c| dec(c).is_some())) {
        return None;
    }
    let mut context = None;
    let mut ext = None;
    while let Some(t) = tail.strip_prefix(';') {
        let n = t.find(|c: char| !(c.is_ascii_alphanumeric() || c == '-')).unwrap_or(t.len());
        if n == 0 {
            break;
        }
        let (key, mut after) = t.split_at(n);
        let mut value = "";
        if let Some(v) = after.strip_prefix('=') {
            let n = v
                .find(|c: char| !(c.is_ascii_alphanumeric() || "[]/:&+$-_.!~*'()%".contains(c)))
                .unwrap_or(v.len());
            (value, after) = v.split_at(n);
        }
        match key.to_ascii_lowercase().as_str() {
            "phone-context" => context = Some(value),
            "ext" => ext = Some(value),
            _ => (),
        }
        tail = after;
    }
    let mut number = body.to_string();
    if let (false, Some(c)) = (plus, context) {
        let c = c.strip_prefix('+').unwrap_or(c);
        if c.contains(|c: char| c.is_ascii_digit())
            && c.chars().all(|c| c.is_ascii_digit() || "-.()".contains(c))
        {
            number = format!("+{c}{number}");
        }
    }
    Some((number, ext.map(str::to_string)))
}

struct Texts {
    start: Regex,
    end: Regex,
    second: Regex,
    ext: Regex,
}

fn texts() -> &'static Texts {
    static T: OnceLock<Texts> = OnceLock::new();
    T.get_or_init(|| Texts {
        start: Regex::new(r"[+\x{FF0B}\p{Nd}]").unwrap(),
        end: Regex::new(r"[^\p{N}\p{L}#]+$").unwrap(),
        second: Regex::new(r"[\\/] *x").unwrap(),
        ext: Regex::new(concat!(
            r"(?i)(?:;ext=(\p{Nd}{0,7})",
            r"|[ \x{A0}\t,]*(?:e?xt(?:ensi(?:o\x{301}?|\x{F3}))?n?|\x{FF45}?\x{FF58}\x{FF54}\x{FF4E}?",
            r"|[,;x\x{FF58}#\x{FF03}~\x{FF5E}]|int|anexo|\x{FF49}\x{FF4E}\x{FF54})",
            r"[:.\x{FF0E}]?[ \x{A0}\t,-]*(\p{Nd}{0,7})#?",
            r"|[- ]+(\p{Nd}{1,5})#)$"
        ))
        .unwrap(),
    })
}

fn split_natural(text: &str) -> Option<(String, Option<String>)> {
    let t = texts();
    let mut s = &text[t.start.find(text)?.start()..];
    if let Some(m) = t.end.find(s) {
        s = &s[..m.start()];
    }
    if let Some(m) = t.second.find(s) {
        s = &s[..m.start()];
    }
    if s.is_empty() {
        return None;
    }
    Some(match t.ext.captures(s) {
        None => (s.to_string(), None),
        Some(c) => (
            s[..c.get(0).unwrap().start()].to_string(),
            (1..=3).filter_map(|i| c.get(i)).map(|m| m.as_str().to_string()).find(|e| !e.is_empty()),
        ),
    })
}
