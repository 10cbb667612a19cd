//! C23: conversions between texts and the small enumerations of the AST, against tables of their own.
use crate::explore::{Ch, Cx, Space};
use crate::refsem::TYPES;
use dbml_rs::ast::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// variants of the column types, in the order of TYPES
const VARIANTS: &[&str] = &[
  "Bit", "Varbit", "Char", "VarChar", "Box", "Cidr", "Circle", "Inet", "Line", "LineSegment", "MacAddr", "MacAddr8", "Money", "Path", "PGLongSequenceNumber", "PGSnapshot", "Point", "Polygon", "TSQuery", "TSVector", "SmallSerial", "Serial",
  "BigSerial", "SmallInt", "Integer", "BigInt", "Real", "DoublePrecision", "Bool", "ByteArray", "Date", "Text", "Time", "Timetz", "Timestamp", "Timestamptz", "Uuid", "Json", "Jsonb", "Decimal", "Xml",
];
const RELATIONS: &[(&str, &str)] = &[("<", "One2Many"), (">", "Many2One"), ("-", "One2One"), ("<>", "Many2Many")];
const INDEXES: &[(&str, &str)] = &[("btree", "BTree"), ("gin", "Gin"), ("gist", "Gist"), ("hash", "Hash")];
const ACTIONS: &[(&str, &str)] = &[("no action", "NoAction"), ("cascade", "Cascade"), ("restrict", "Restrict"), ("set null", "SetNull"), ("set default", "SetDefault")];
const VALUES: &[(&str, &str)] = &[("true", "Bool(true)"), ("false", "Bool(false)"), ("null", "Null")];

/// the spelling of an action the parser itself may leave in the text: words apart by any blanks
fn of(table: &'static [(&str, &'static str)], s: &str) -> Option<&'static str> {
  table.iter().find(|r| r.0 == s).map(|r| r.1)
}

fn column_type(s: &str) -> Option<&'static str> {
  TYPES.iter().position(|row| row.contains(&s)).map(|i| VARIANTS[i])
}

fn show<T: std::fmt::Debug, E>(f: impl FnOnce() -> Result<T, E>) -> Result<Option<String>, ()> {
  catch_unwind(AssertUnwindSafe(|| f().ok().map(|x| format!("{x:?}")))).map_err(|_| ())
}

/// one text, by all six conversions
fn convert(cx: &mut Cx, s: &str) {
  let cases: [(&str, Result<Option<String>, ()>, Option<String>); 6] = [
    ("ColumnTypeName", show(|| s.parse::<ColumnTypeName>()), column_type(s).map(String::from)),
    ("Relation", show(|| s.parse::<Relation>()), of(RELATIONS, s).map(String::from)),
    ("IndexesType", show(|| s.parse::<IndexesType>()), of(INDEXES, s).map(String::from)),
    ("ReferentialAction", show(|| s.parse::<ReferentialAction>()), of(ACTIONS, s).map(String::from)),
    ("Value", show(|| s.parse::<Value>()), of(VALUES, s).map(String::from)),
    ("DatabaseType", show(|| s.parse::<DatabaseType>()), Some(if s == "PostgreSQL" { "PostgreSQL".into() } else { format!("Unknown({s:?})") })),
  ];
  let mut hit = false;
  for (name, got, want) in cases {
    cx.impl_calls += 1;
    cx.compared += 1;
    match got {
      Err(()) => cx.fail(s, format!("{name}::from_str panics")),
      Ok(got) => {
        hit |= name != "DatabaseType" && want.is_some();
        if got != want {
          cx.fail(s, format!("{name}::from_str gives {got:?}, expected {want:?}"));
        }
      }
    }
  }
  // and back
  let back = catch_unwind(AssertUnwindSafe(|| {
    let a = s.parse::<ReferentialAction>().ok().map(|a| a.to_string());
    let v = s.parse::<Value>().ok().map(|a| a.to_string());
    (a, v)
  }));
  cx.impl_calls += 2;
  cx.compared += 2;
  let want = (of(ACTIONS, s).map(|_| s.to_string()), of(VALUES, s).map(|_| s.to_string()));
  match back {
    Err(_) => cx.fail(s, "to_string panics"),
    Ok(b) if b != want => cx.fail(s, format!("written back as {b:?}")),
    _ => (),
  }
  cx.out(if hit { "converted" } else { "refused" });
}

fn spellings() -> Vec<String> {
  let mut v: Vec<String> = TYPES.iter().flat_map(|r| r.iter()).map(|s| s.to_string()).collect();
  for t in [RELATIONS, INDEXES, ACTIONS, VALUES] {
    v.extend(t.iter().map(|r| r.0.to_string()));
  }
  v.push("PostgreSQL".into());
  v
}

/// names that DBML tools or databases know, but this crate does not
const FOREIGN: &[&str] = &[
  "restricted", "restricts", "cascaded", "cascading", "cascades", "nullify", "set to null", "set to default", "defaulted", "do nothing", "no actions", "integers", "bigserial4", "smallserial2", "serial16", "unsigned", "unsigned int", "int unsigned", "long", "longtext", "mediumtext", "tinytext", "ntext", "tinyblob", "longblob", "binary",
  "varbinary", "image", "rowversion", "uniqueidentifier", "sql_variant", "smallmoney", "smalldatetime", "datetime2", "datetimeoffset", "year", "varchar2", "nvarchar2", "raw", "long raw", "rowid", "bfile", "bool_", "guid", "uuid4", "json5", "bson", "jsonb2", "document", "map", "struct", "list", "tuple", "bytes", "byte", "bytearray",
  "lsn", "pg_snapshot2", "txid_snapshot", "regclass", "int2vector", "tsrange", "int4range", "numrange", "money4", "real4", "float32", "float64", "decimal128", "numeric32", "bignumeric", "bigdecimal", "hex", "polyline", "linestring", "geography", "cidr6", "inet4", "mac", "macaddr6", "segment", "linesegment", "line segment", "ipaddress",
  "", "undef", "Undef", "enum", "raw", "string", "tinyint", "mediumint", "blob", "clob", "datetime", "nvarchar", "nchar", "double", "float", "float2", "float16", "dec", "number", "int1", "int3", "int16", "int32", "int64", "uint", "serial1", "serial16", "interval", "numeric(1)", "int[]", "varchar(1)",
  "char varying", "bit  varying", "character  varying", "time with timezone", "time without timezone", "timestamp with timezone", "timestamp  with time zone", "double", "precision", "doubleprecision", "national character", "macaddr16", "jsonpath", "hstore", "geometry", "array", "oid", "name", "citext",
  "><", "<<", ">>", "--", "=", "<=>", "< >", "->", "<-", "~", "spgist", "brin", "b-tree", "b tree", "rtree", "bloom", "noaction", "no-action", "no  action", "setnull", "set-null", "set  null", "setdefault", "set_default", "none", "nothing", "null set", "delete", "yes", "no", "on", "off", "t", "f", "0", "1", "undefined", "nil",
  "None", "not null", "Null", "NULL", "postgresql", "Postgres", "postgres", "PostgreSql", "PostgreSQL 15", "MySQL", "Microsoft SQL Server", "Oracle", "'PostgreSQL'", "POSTGRESQL",
];

fn edit(ch: &mut Ch, s: &str, alphabet: &[char]) -> String {
  let c: Vec<char> = s.chars().collect();
  let n = c.len();
  // delete, replace, insert, exchange
  let k = ch.free(n + n * alphabet.len() + (n + 1) * alphabet.len() + n.saturating_sub(1));
  let mut o = c.clone();
  let mut k = k;
  if k < n {
    o.remove(k);
    return o.into_iter().collect();
  }
  k -= n;
  if k < n * alphabet.len() {
    o[k / alphabet.len()] = alphabet[k % alphabet.len()];
    return o.into_iter().collect();
  }
  k -= n * alphabet.len();
  if k < (n + 1) * alphabet.len() {
    o.insert(k / alphabet.len(), alphabet[k % alphabet.len()]);
    return o.into_iter().collect();
  }
  k -= (n + 1) * alphabet.len();
  o.swap(k, k + 1);
  o.into_iter().collect()
}

fn integers() -> Vec<i64> {
  let mut v = vec![i64::MIN, i64::MAX, 0];
  for e in 0..63 {
    for d in -2..=2 {
      v.extend([(1i64 << e).wrapping_add(d), -(1i64 << e).wrapping_add(d)]);
    }
  }
  for e in 0..19 {
    let p = 10i64.pow(e);
    v.extend([p, -p, p - 1, 1 - p, p.saturating_mul(7)]);
  }
  v.sort();
  v.dedup();
  v
}

fn text_of(cx: &mut Cx, v: &Value, want: &str) {
  cx.impl_calls += 1;
  cx.compared += 1;
  let name = format!("{v:?}");
  match catch_unwind(AssertUnwindSafe(|| v.to_string())) {
    Ok(s) if s == want => cx.out("written"),
    Ok(s) => cx.fail(&name, format!("{name} is written as {s:?}, expected {want:?}")),
    Err(_) => cx.fail(&name, format!("{name}.to_string() panics")),
  }
}

/// in plain notation, and the very same number
fn written(cx: &mut Cx, name: &str, x: f64) {
  cx.impl_calls += 1;
  cx.compared += 1;
  let Ok(s) = catch_unwind(|| Value::Decimal(x).to_string()) else {
    cx.fail(name, format!("Decimal({x}).to_string() panics"));
    return;
  };
  let d = s.strip_prefix('-').unwrap_or(&s);
  let plain = d.starts_with(|c: char| c.is_ascii_digit()) && d.chars().all(|c| c.is_ascii_digit() || c == '.') && d.matches('.').count() < 2;
  if !plain || s.parse::<f64>().ok().map(f64::to_bits) != Some(x.to_bits()) {
    cx.fail(name, format!("Decimal({x:e}) is written as {s:?}"));
  }
  cx.out("written");
}

/// the words of documented names, and others that go with them
const WORDS: &[&str] = &[
  "no", "action", "set", "null", "default", "cascade", "cascaded", "restrict", "not", "on", "delete", "update", "defer", "time", "timestamp", "with", "without", "local", "zone", "timezone", "tz", "double", "single", "precision", "real", "float", "bit", "varying", "character", "char", "varchar", "national", "large",
  "object", "binary", "int", "integer", "big", "small", "unsigned", "signed", "long", "serial", "text", "true", "false", "hash", "btree", "gin", "gist", "index", "date", "of", "the", "and", "or", "bool", "boolean", "numeric", "decimal", "money", "json", "xml", "uuid",
];

pub fn spaces(deep: bool) -> Vec<Space> {
  let sp = spellings();
  let ascii: Vec<char> = (32u8..127).map(char::from).chain(['\t', '\n', '\0', '\u{a0}', 'é', 'ı', 'ſ', '\u{212a}']).collect();
  let small: Vec<char> = if deep { "abcdefghijklmnopqrstuvwxyz0248_ <>-LPQSgt".chars().collect() } else { "aeilnortu48 <>-S".chars().collect() };
  let (s1, s2, s3, s4, s5) = (sp.clone(), sp.clone(), sp.clone(), sp.clone(), sp.clone());
  let a1 = ascii.clone();
  let strings: Vec<char> = ascii.clone();
  let n3 = if deep { "abcdefghijklmnopqrstuvwxyz0123456789_ <>-".chars().collect::<Vec<_>>() } else { "abcdefghilmnorstuvxy248 <>-".chars().collect() };
  let long = if deep { 5 } else { 4 };
  let mut v = vec![
    Space::new("spellings", format!("the {} documented spellings and {} foreign ones, in lower, upper and title case, with blanks, quotes and brackets around them", sp.len(), FOREIGN.len()), 0, move |ch, cx| {
      let k = ch.free(s1.len() + FOREIGN.len());
      let s = if k < s1.len() { s1[k].as_str() } else { FOREIGN[k - s1.len()] };
      let t = match ch.free(6) {
        0 => s.to_string(),
        1 => s.to_uppercase(),
        2 => s.to_lowercase(),
        3 => s[..s.chars().next().map_or(0, |c| c.len_utf8())].to_uppercase() + &s[s.chars().next().map_or(0, |c| c.len_utf8())..],
        4 => s.split(' ').map(|w| w[..w.len().min(1)].to_uppercase() + &w[w.len().min(1)..]).collect::<Vec<_>>().join(" "),
        _ => s.replace(' ', ["", "_", "  ", "\t", "-"][ch.free(5)]),
      };
      let t = match ch.free(14) {
        0 => t,
        1 => format!(" {t}"),
        2 => format!("{t} "),
        3 => format!("\"{t}\""),
        4 => format!("'{t}'"),
        5 => format!("{t}()"),
        6 => format!("{t}(1)"),
        7 => format!("{t}[]"),
        8 => format!("{t}s"),
        9 => format!("{t}\n"),
        10 => format!("{t}\0"),
        11 => format!("_{t}"),
        12 => format!("{t}{t}"),
        _ => format!("public.{t}"),
      };
      if cx.case(&t) {
        convert(cx, &t)
      }
    }),
    Space::new("edits", "every spelling with one character deleted, replaced, inserted (over printable ASCII and 8 others) or exchanged with the next", 0, move |ch, cx| {
      let s = ch.of(&s2);
      let t = edit(ch, s, &a1);
      if cx.case(&t) {
        convert(cx, &t)
      }
    }),
    Space::new("two-edits", format!("every spelling with two such edits over {} characters", small.len()), 0, move |ch, cx| {
      let s = ch.of(&s3);
      if !deep && s.len() > 12 {
        return;
      }
      let t = edit(ch, s, &small);
      let t = edit(ch, &t, &small);
      if cx.case(&t) {
        convert(cx, &t)
      }
    }),
    Space::new("pairs", "every two spellings joined by nothing, a blank, an underscore or a comma; every part of a spelling", 0, move |ch, cx| {
      let a = ch.of(&s4);
      let t = if ch.flag() {
        let i = ch.free(a.len() + 1);
        let j = i + ch.free(a.len() - i + 1);
        a[i..j].to_string()
      } else {
        format!("{a}{}{}", ch.of(&["", " ", "_", ","]), ch.of(&s4))
      };
      if cx.case(&t) {
        convert(cx, &t)
      }
    }),
    Space::new("strings", format!("every string of up to 2 characters over {}, of up to {long} over {}", strings.len(), n3.len()), 0, move |ch, cx| {
      let t: String = if ch.flag() {
        let n = ch.free(3);
        (0..n).map(|_| *ch.of(&strings)).collect()
      } else {
        let n = 3 + ch.free(long - 2);
        (0..n).map(|_| *ch.of(&n3)).collect()
      };
      if cx.case(&t) {
        convert(cx, &t)
      }
    }),
    Space::new("affixes", "every spelling with up to 3 letters or digits (thorough: over all of them) before or after it, glued or apart", 0, move |ch, cx| {
      let s = ch.of(&s5);
      let n = 1 + ch.free(3);
      let al = if n == 3 && !deep { "acdegilnrst248" } else { "abcdefghijklmnopqrstuvwxyz0123456789" };
      let al: Vec<char> = al.chars().collect();
      let x: String = (0..n).map(|_| *ch.of(&al)).collect();
      let t = match ch.free(4) {
        0 => format!("{s}{x}"),
        1 => format!("{x}{s}"),
        2 => format!("{s} {x}"),
        _ => format!("{x} {s}"),
      };
      if cx.case(&t) {
        convert(cx, &t)
      }
    }),
    Space::new("words", format!("every sequence of up to 3 (thorough: 4) of {} words of type and action names", WORDS.len()), 0, move |ch, cx| {
      let n = 1 + ch.free(if deep { 4 } else { 3 });
      let t = (0..n).map(|_| *ch.of(WORDS)).collect::<Vec<_>>().join(" ");
      if cx.case(&t) {
        convert(cx, &t)
      }
    }),
    Space::new("integers", "integer values at every power of two and ten, +-2", 0, {
      let v = integers();
      move |ch, cx| {
        let i = *ch.of(&v);
        // digits by hand
        let mut d = vec![];
        let mut x = (i as i128).unsigned_abs();
        loop {
          d.push(b'0' + (x % 10) as u8);
          x /= 10;
          if x == 0 {
            break;
          }
        }
        if i < 0 {
          d.push(b'-');
        }
        d.reverse();
        let s = String::from_utf8(d).unwrap();
        if cx.case(&s) {
          text_of(cx, &Value::Integer(i), &s)
        }
      }
    }),
    Space::new("decimals", "decimal values s.d x sign over up to 3 (thorough: 4) digits on each side: the same number", 0, move |ch, cx| {
      let n = if deep { 4 } else { 3 };
      let mut t = String::new();
      if ch.flag() {
        t.push('-');
      }
      for part in 0..2 {
        for _ in 0..1 + ch.free(n) {
          t.push(*ch.of(&['0', '1', '5', '9']));
        }
        if part == 0 {
          t.push('.');
        }
      }
      if cx.case(&t) {
        written(cx, &t, t.parse().unwrap());
      }
    }),
    Space::new("magnitudes", "decimal values m x 10^e over all e, and every power of two with its neighbours, both signs: plain notation, the same number", 0, move |ch, cx| {
      let x: f64 = if ch.flag() {
        let m = *ch.of(&["1", "2", "5", "9", "1.5", "1.7976931348623157", "1.234567890123456", "9.999999999999999", "4.9", "2.2250738585072014", "3.0000000000000004"]);
        let e = ch.free(640) as i32 - 330;
        format!("{m}e{e}").parse().unwrap()
      } else {
        let e = ch.free(2100) as i32 - 1075;
        let b = if e < -1022 { 1u64.checked_shl((e + 1074).max(0) as u32).unwrap_or(0) } else if e > 1023 { 2046u64 << 52 | ((1 << 52) - 1) } else { ((e + 1023) as u64) << 52 };
        f64::from_bits((b + ch.free(3) as u64).saturating_sub(1))
      };
      let x = if ch.flag() { -x } else { x };
      if !x.is_finite() || !cx.case(&format!("{:x}", x.to_bits())) {
        return;
      }
      written(cx, &format!("{x:e}"), x);
    }),
    Space::new("texts", "string, colour, enum and expression values keep their text; booleans and null", 0, move |ch, cx| {
      const T: &[&str] = &["", "a", " a ", "null", "true", "1", "-1.50", "a'b", "a\"b", "é\u{1f600}", "`x`", "#fff", "#FFFFFF", "a\nb", "\\n", "\t", "\0", "{}", "%s", "set null", "{0}"];
      let s = ch.of(T).to_string();
      let k = ch.free(4);
      let v = match k {
        0 => Value::String(s.clone()),
        1 => Value::Enum(s.clone()),
        2 => Value::HexColor(s.clone()),
        _ => Value::Expr(s.clone()),
      };
      if cx.case(&format!("{k} {s}")) {
        text_of(cx, &v, &s)
      }
    }),
    Space::new("variants", "every action, boolean and null as text, and parsed again", 0, move |ch, cx| {
      let k = ch.free(8);
      if !cx.case(&k.to_string()) {
        return;
      }
      use ReferentialAction::*;
      match k {
        0..=4 => {
          let (a, s) = [(NoAction, "no action"), (Cascade, "cascade"), (Restrict, "restrict"), (SetNull, "set null"), (SetDefault, "set default")].into_iter().nth(k).unwrap();
          let name = format!("{a:?}");
          let t = a.to_string();
          let again = t.parse::<ReferentialAction>().ok().map(|x| format!("{x:?}"));
          cx.impl_calls += 2;
          cx.compared += 2;
          if t != s || again.as_ref() != Some(&name) {
            cx.fail(s, format!("{name} is written as {t:?} and read as {again:?}"));
          }
          cx.out("written");
        }
        _ => {
          let (v, s) = [(Value::Bool(true), "true"), (Value::Bool(false), "false"), (Value::Null, "null")].into_iter().nth(k - 5).unwrap();
          text_of(cx, &v, s);
          let again = v.to_string().parse::<Value>().ok();
          cx.impl_calls += 2;
          cx.compared += 1;
          if again.as_ref() != Some(&v) {
            cx.fail(s, format!("{v:?} is read again as {again:?}"));
          }
        }
      }
    }),
  ];
  v.push(Space::new("in-documents", "every spelling, and every spelling with one edit over 12 characters, as the type of a column, quoted: built-in, or kept as a name", 0, move |ch, cx| {
    let s = ch.of(&sp);
    let t = if ch.flag() { edit(ch, s, &['a', 's', '2', '4', '8', ' ', '_', 'T', 'é', 'e', 'r', 'i']) } else { s.clone() };
    if t.contains(['(', ')', '[', ']', '"', '.']) || t.is_empty() {
      return;
    }
    let d = format!("Table t {{ a \"{t}\" }}");
    // not every quoted text is the name of a type
    if crate::refparse::parse(&d).is_none() || !cx.case(&d) {
      return;
    }
    cx.compared += 1;
    let want = column_type(&t).map(String::from);
    let real = match cx.unchecked(&d) {
      crate::real::Res::Ok(x) => Ok(x.tables().first().and_then(|t| t.cols.first()).map(|c| format!("{:?}", c.r#type.type_name))),
      x => Err(x.brief()),
    };
    // the parser leaves every type raw; converting the name gives the built-in or nothing
    let raw = format!("Raw({t:?})");
    match (real, want) {
      (Ok(Some(r)), Some(w)) if r == raw || r == w => (),
      (Ok(Some(r)), None) if r == raw => (),
      (r, _) => cx.fail(&d, format!("the column has the type {r:?}")),
    }
    cx.out("typed");
  }));
  v
}
