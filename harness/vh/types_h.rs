//! C17: FIX type names and connection types.
use super::*;
use crate::data_dictionary::FixType;
use crate::network::ConnectionType;

const NAMES: [(&str, &str); 24] = [
    ("CHAR", "Char"), ("BOOLEAN", "Boolean"), ("DATA", "Data"), ("FLOAT", "Float"), ("AMT", "Amt"), ("PERCENTAGE", "Percentage"),
    ("PRICE", "Price"), ("PRICEOFFSET", "PriceOffset"), ("QTY", "Qty"), ("INT", "Int"), ("LENGTH", "Length"), ("NUMINGROUP", "NumInGroup"),
    ("SEQNUM", "Seqnum"), ("TAGNUM", "Tagnum"), ("STRING", "Str"), ("COUNTRY", "Country"), ("CURRENCY", "Currency"), ("EXCHANGE", "Exchange"),
    ("LOCALMKTDATE", "LocalMktDate"), ("MONTHYEAR", "MonthYear"), ("MULTIPLEVALUESTRING", "MultipleValueString"), ("UTCDATE", "UtcDate"),
    ("UTCTIMEONLY", "UtcTimeOnly"), ("UTCTIMESTAMP", "UtcTimestamp"),
];
// names of later versions of FIX and words in use elsewhere: no types here
const OTHERS: [&str; 24] = [
    "TIME", "DATE", "UTCDATEONLY", "TZTIMEONLY", "TZTIMESTAMP", "LOCALMKTTIME", "MULTIPLECHARVALUE", "MULTIPLESTRINGVALUE", "LANGUAGE",
    "XMLDATA", "PATTERN", "TENOR", "STR", "BOOL", "NUMBER", "INTEGER", "DOUBLE", "DAYOFMONTH", "DAY-OF-MONTH", "UTC", "TAG", "SEQ", "PRICE_OFFSET", "NUM_IN_GROUP",
];
fn gen(r: &mut Rng, n: u64) -> String {
    let words = ["acceptor", "initiator", "UNKNOWN", "", "Acceptor", "ACCEPTOR ", "INITIATOR", "accept"];
    if n < 24 {
        return NAMES[n as usize].0.to_string();
    }
    if n < 32 {
        return words[n as usize - 24].to_string();
    }
    let base = if r.chance(1, 2) { NAMES[r.below(24)].0.to_string() } else { words[r.below(8)].to_string() };
    let mut c: Vec<char> = base.chars().collect();
    for _ in 0..r.below(3) {
        let i = r.below(c.len() + 1);
        match r.below(4) {
            0 => c.insert(i, *r.pick(&['A', 'x', ' ', 'é', 'K'])),
            1 if i < c.len() => {
                c.remove(i);
            }
            2 if i < c.len() => c[i] = c[i].to_ascii_lowercase(),
            _ if i < c.len() => c[i] = c[i].to_ascii_uppercase(),
            _ => {}
        }
    }
    let s: String = c.into_iter().collect();
    if r.chance(1, 6) {
        let more = ["_", "-", "_2", "S", ",", ".", "\t", "\n", "\0", "(1)", "/", "0"];
        let m = *r.pick(&more);
        return if r.chance(3, 4) { format!("{}{}", s, m) } else { format!("{}{}", m, s) };
    }
    if r.chance(1, 10) {
        return r.pick(&OTHERS).to_string();
    }
    hot_str(r, 3, &s).unwrap_or(s)
}
fn run(s: &str) -> Outcome {
    let t: FixType = match guarded(|| s.parse::<FixType>().unwrap()) {
        Ok(t) => t,
        Err(p) => return Outcome::Bad(format!("reading the type {:?} panicked: {}", s, p)),
    };
    let want = NAMES.iter().find(|n| n.0 == s).map(|n| n.1).unwrap_or("Unknown");
    if format!("{:?}", t) != want {
        return Outcome::Bad(format!("{:?} is read as {:?} instead of {}", s, t, want));
    }
    let printed = t.to_string();
    let back: FixType = printed.parse().unwrap();
    if format!("{:?}", back) != want {
        return Outcome::Bad(format!("type {} prints as {:?}, which is read as {:?}", want, printed, back));
    }
    if want != "Unknown" && printed != s {
        return Outcome::Bad(format!("type {} prints as {:?} instead of {:?}", want, printed, s));
    }
    let low: String = s.chars().map(|c| c.to_ascii_lowercase()).collect();
    let wantc = match low.as_str() {
        "acceptor" => "Ok(ACCEPTOR)",
        "initiator" => "Ok(INITIATOR)",
        _ => "Err",
    };
    let got = match guarded(|| s.parse::<ConnectionType>()) {
        Ok(Ok(c)) => format!("Ok({:?})", c),
        Ok(Err(_)) => "Err".to_string(),
        Err(p) => format!("panic {}", p),
    };
    if got != wantc {
        return Outcome::Bad(format!("connection type {:?} is read as {} instead of {}", s, got, wantc));
    }
    pass()
}
pub const C17: Prop = Prop { gen, run, shrink: no_shrink };
