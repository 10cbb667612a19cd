//! C01: both entry points return on every text, with an error that can be displayed.
use super::sem::{self, Mode};
use super::util::*;
use crate::explore::Space;
use crate::gen;
use crate::oracle::total;

const ALPHABET: &[char] = &[
  ' ', '\n', '\t', '\r', '"', '\'', '`', '{', '}', '[', ']', '(', ')', ',', ':', '.', '<', '>', '-', '#', '/', '*', '_', 'a', 'T', '0', '9', '\\', '\0', '\u{7f}', '\u{a0}', 'é', '日', '😀', '\u{feff}', '\u{2028}', '~', '=', ';', '\u{301}',
];

pub fn spaces(deep: bool) -> Vec<Space> {
  let mut docs: Vec<String> = gen::small_docs().iter().chain(gen::valid_docs().iter()).map(|s| s.to_string()).collect();
  docs.push(gen::compact(&mut gen::kitchen_sink()));
  docs.push(FRAME_ALL.to_string());
  let (d1, d2, d3) = (docs.clone(), docs.clone(), docs.clone());
  let mut v = vec![
    Space::new("characters", "every document x every position x delete, or insert or replace by each of 40 characters", 0, move |ch, cx| {
      let d = ch.of(&d1);
      let cs: Vec<_> = d.char_indices().map(|c| c.0).collect();
      let at = ch.free(cs.len() + 1);
      let how = ch.free(3);
      let a = cs.get(at).copied().unwrap_or(d.len());
      let b = if how == 0 { a } else { cs.get(at + 1).copied().unwrap_or(d.len()) };
      let mut t = d[..a].to_string();
      if how < 2 {
        t.push(*ch.of(ALPHABET));
      }
      t += &d[b..];
      if cx.case(&t) {
        total(cx, &t)
      }
    }),
    Space::new("cuts", "every document with every range of characters cut out (prefixes and suffixes included)", 0, move |ch, cx| {
      let d = ch.of(&d2);
      let cs: Vec<_> = d.char_indices().map(|c| c.0).chain([d.len()]).collect();
      if cs.len() > 400 && !deep {
        return;
      }
      let Some(a) = ch.big(cs.len()) else { return };
      let Some(k) = ch.big(cs.len() - a) else { return };
      let t = format!("{}{}", &d[..cs[a]], &d[cs[a + k]..]);
      if cx.case(&t) {
        total(cx, &t)
      }
    }),
    Space::new("short", "every string of up to 3 (thorough: 4) of 32 characters", 0, move |ch, cx| {
      let n = ch.free(if deep { 5 } else { 4 });
      let t: String = (0..n).map(|_| *ch.of(&ALPHABET[..32])).collect();
      if cx.case(&t) {
        total(cx, &t)
      }
    }),
    Space::new("tokens", "every sequence of up to 3 (thorough: 4) tokens in each syntactic context", 0, move |ch, cx| {
      let c = ch.of(CONTEXTS);
      let n = ch.free(if deep { 5 } else { 4 });
      let sep = if n < 4 { *ch.of(&[" ", ""]) } else { " " };
      let mut s = String::new();
      for _ in 0..n {
        s += ch.of(c.tokens);
        s += sep;
      }
      let t = format!("{}{s}{}", c.pre, c.post);
      if cx.case(&t) {
        total(cx, &t)
      }
    }),
    Space::new("columns", "every type x argument list x array x pair of settings, checked", 0, move |ch, cx| {
      const T: &[&str] = &["int", "char", "varchar", "bit", "varbit", "decimal", "bool", "smallint", "bigint", "e", "s.e", "nope", "time", "\"character varying\"", "\"x.y\".e", "text", "a.int"];
      const A: &[&str] = &["", "()", "(1)", "(1,2)", "('x')", "(9223372036854775807)", "(null,`x`)"];
      const R: &[&str] = &["", "[]", "[0][1]"];
      let t = ch.of(T);
      let (a, r) = (ch.of(A), ch.of(R));
      let n = ch.free(3);
      let l: Vec<_> = (0..n).map(|_| *ch.of(if n == 1 || deep { COL_SETTINGS } else { &COL_SETTINGS[..24] })).collect();
      let t = match t.strip_suffix('"') {
        Some(q) => format!("{q}{a}\"{r}"),
        None => format!("{t}{a}{r}"),
      };
      let t = format!("Project p {{}} Table t as x {{ é int }}\nEnum e {{ a }}\nTable s.t {{ a {t} [{}] }}", l.join(", ")).replace("é", "\"é\"");
      if cx.case(&t) {
        total(cx, &t)
      }
    }),
    Space::new("keys", "each known key in each settings list with no value or with each kind of value, alone and twice", 0, |ch, cx| {
      let key = ch.of(KEYS);
      let mut vals: Vec<String> = gen::values().iter().map(|l| format!(": {}", l.raw)).collect();
      vals.extend(["".into(), ": \"dq\"".into(), ": \"\"".into(), ":".into()]);
      let v = ch.of(&vals).clone();
      let twice = ch.free(3);
      let l = match twice {
        0 => format!("{key}{v}"),
        1 => format!("{key}{v}, {key}"),
        _ => format!("{key}, {key}{v}"),
      };
      let host = ch.free(HOSTS.len());
      let t = HOSTS[host].replace("@", &l);
      if cx.case(&t) {
        total(cx, &t)
      }
    }),
    Space::new("extremes", "sizes 1, 2, 3, ... 10^5 of each repeatable or unbounded part", 0, move |ch, cx| {
      let k = ch.free(EXTREMES.len());
      const N: &[usize] = &[1, 2, 3, 8, 17, 18, 19, 20, 31, 32, 33, 64, 127, 255, 256, 257, 308, 309, 310, 400, 1000, 1023, 1024, 4096, 10000, 20000, 32768, 50000, 65536, 100000];
      let Some(&n) = N.get(ch.free(N.len())) else { return };
      let (pre, one, post, max) = EXTREMES[k];
      if n > max * if deep { 4 } else { 1 } {
        return;
      }
      let mut t = pre.to_string();
      for i in 0..n {
        if one.contains('@') {
          t += &one.replace('@', &i.to_string());
        } else {
          t += one;
        }
      }
      t += post;
      if cx.case(&t) {
        total(cx, &t)
      }
    }),
  ];
  if deep {
    v.push(Space::new("two-characters", "every short document x every two positions x delete or replace by each of 10 characters", 0, move |ch, cx| {
      let d = ch.of(&d3);
      let cs: Vec<char> = d.chars().collect();
      if cs.len() > 130 {
        return;
      }
      const C: &[Option<char>] = &[None, Some('"'), Some('\''), Some('{'), Some('}'), Some('['), Some(']'), Some('/'), Some('é'), Some(' ')];
      let a = ch.free(cs.len());
      let b = ch.free(cs.len());
      if b <= a {
        return;
      }
      let (x, y) = (*ch.of(C), *ch.of(C));
      let t: String = cs.iter().enumerate().filter_map(|(i, c)| if i == a { x } else if i == b { y } else { Some(*c) }).collect();
      if cx.case(&t) {
        total(cx, &t)
      }
    }));
  }
  v.push(sem::space(sem::stretched(deep), Mode::Total));
  v.extend(sem::every(0, Mode::Total));
  v
}

/// a document with semantic content all over, for mutation
const FRAME_ALL: &str = "Project p { database_type: 'x' }\nTable s.t as x [note: 'é'] { a int [pk] b varchar(3) [unique, default: 'é', ref: > s.u.(k)] c e [null, default: null] indexes { (a, b) [unique] `f` c [type: gin] } }\nTable s.u { k varchar(3) [primary key] }\nEnum e { v \"日\" [note: 'n'] }\nRef r: x.a - s.t.a [delete: cascade]\nTableGroup g { x s.u Note: 'g' }\n";

const COL_SETTINGS: &[&str] = &[
  "pk", "primary key", "unique", "null", "not null", "increment", "note: 'n'", "default: 'abc'", "default: ''", "default: 1", "default: 1.5", "default: true", "default: null", "default: `e`", "default: a", "default: #abc", "default: 9223372036854775807", "default: \"dq\"", "ref: > x.é", "ref: - t.a", "ref: <> nope.a", "ref: < s.t.(a, a)", "default", "note", "x", "Default: 1", "pk: 1", "null: 1", "note: 1", "unique: false", "ref: > s.t.a",
];

/// (prefix, repeated part (@ = number), suffix, greatest count)
const EXTREMES: &[(&str, &str, &str, usize)] = &[
  ("Project p {}\nTable t { a int [default: ", "9", "] }", 100000),
  ("Project p {}\nTable t { a int [default: ", "9", ".5] }", 100000),
  ("Project p {}\nTable t { a int [default: 0.", "9", "] }", 100000),
  ("Project p {}\nTable t { a int(", "9", ") }", 100000),
  ("Project p {}\nTable t { a int[", "9", "] }", 100000),
  ("Project p { k: ", "0", " }", 100000),
  ("Project p {}\nTable ", "n", " { a int }", 100000),
  ("Project p {}\nTable \"", "é", "\" { a int }", 100000),
  ("Project p {}\nNote: '", "\n", "'", 100000),
  ("Project p {}\n", " ", "", 100000),
  ("Project p {}\n", "// x\n", "", 65536),
  ("Project p {} /*", "*", "*/", 100000),
  ("Project p {} ", "/**/", "", 65536),
  ("Project p {} /*", "/*", "", 65536),
  ("", "Note: 'x'\n", "", 10000),
  ("", "Note: 'x'\n", "Project p {}", 50000),
  ("", "Table t@ { a int [pk] }\n", "Project p {}", 20000),
  ("", "{", "", 100000),
  ("Table t { a int", "[]", " }", 50000),
  ("Table t { a int", "[", "", 10000),
  ("Table t { a f(1", ",1", ") }", 50000),
  ("Table t { a f", "(", ")", 10000),
  ("Project p {}\nTable t { a int [x", ", k@: 1", "] }", 50000),
  ("Project p {}\nTable t { ", "c@ int\n", "}", 50000),
  ("Project p {}\nTable t { a int indexes { ", "(a, `x@`) [unique] ", "} }", 1024),
  ("Project p {}\nTable t { a int indexes { (a", ", `x@`", ") [unique] } }", 50000),
  ("Project p {}\nEnum e { ", "v@ ", "}", 50000),
  ("Project p {}\nTable t { a int [unique", ", ref: > t.a", "] }", 512),
  ("Project p {}\nRef: t.(a", ", b@", ") > t.(a) Table t { a int }", 50000),
  ("Project p {}\nTableGroup g { ", "t ", "} Table t { }", 50000),
  ("Project p { ", "k@: 1 ", "}", 50000),
  ("Project p { ", "Note: 'x' ", "}", 50000),
  ("", "\"", "", 10000),
  ("", "'", "", 10000),
  ("Note: ", "'", "", 10000),
  ("Note: '''", "''", "", 10000),
  ("Table t { a ", "\"", "", 10000),
  ("Table t { a int [x y", " z", "] }", 10000),
  ("Table a", ".b", " { }", 10000),
  ("Ref: a", ".b", " > c.d", 10000),
  ("Ref: a.b ", ">", " c.d", 10000),
  ("#", "f", "", 10000),
  ("\u{feff}", "é", "", 10000),
  ("Project p {}\nTable t { k int [pk] ", "c@ int [ref: > t.k] ", "}", 1024),
  ("Project p {}\nTable t { k int [pk] }\n", "Table t@ as x@ { a int }\nRef: x@.a > t.k\n", "", 1024),
  ("Project p {}\n", "Table t@ as x@ { }\nTableGroup g@ { x@ }\n", "", 10000),
  ("Project p {}\n", "Enum s@.e { v }\nTable s@.t { a s@.e [default: 'v'] }\n", "", 10000),
  ("Project p {}\nTable t { a int ", "indexes { a } ", "}", 50000),
  ("Project p {}\nTable t { a int ", "Note: 'x' ", "}", 50000),
  ("Project p {}\nTable t { a int [note: '''", "x\n", "'''] }", 100000),
  ("Project p {}\nTable t { a varchar(5) [default: '", "é", "'] }", 100000),
  ("Project p {}\nTableGroup g [x", ", k@: 1", "] { }", 50000),
  ("Project p {}\nRef: t.a > t.a [x", ", k@: 1", "]\nTable t { a int [pk] }", 50000),
];
