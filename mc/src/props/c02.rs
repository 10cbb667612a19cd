//! C02: the unchecked parser accepts exactly the documented language (the reference recogniser decides).
use super::util::*;
use crate::explore::{Cx, Space};
use crate::gen;
use crate::oracle::{syntax, Depth};

fn chk(cx: &mut Cx, t: &str) {
  if cx.case(t) {
    syntax(cx, t, Depth::Verdict)
  }
}

/// tokens for single-token edits: one of each kind, and look-alikes
const TOKENS: &[&str] = &[
  "{", "}", "[", "]", "(", ")", ",", ":", ".", "<", ">", "-", "<>", "'x'", "'''y'''", "`f`", "\"q\"", "a", "b c", "1", "1.5", "true", "null", "#abc", "#ab", "Table", "Enum", "Ref", "Note", "note", "indexes", "Project", "TableGroup", "as", "ref", "//", "/*", "*/", "'", "\"", "`", ";", "=", "+", "\\", "é", "-1", "1a", "_a", "a_", "==", "::", "..", "[]", "{}", "()", "pk", "not null",
];

/// splits a document into tokens and the gaps between them
pub fn lex(d: &str) -> Vec<String> {
  let b: Vec<char> = d.chars().collect();
  let mut out: Vec<String> = vec![];
  let mut i = 0;
  while i < b.len() {
    let s = i;
    let c = b[i];
    let word = |c: char| c.is_ascii_alphanumeric() || c == '_';
    if c.is_whitespace() {
      while i < b.len() && b[i].is_whitespace() {
        i += 1
      }
    } else if word(c) {
      while i < b.len() && word(b[i]) {
        i += 1
      }
    } else if c == '\'' || c == '"' || c == '`' {
      let q = if c == '\'' && b[i..].starts_with(&['\'', '\'', '\'']) { 3 } else { 1 };
      i += q;
      while i < b.len() && !(b[i] == c && b[i..].iter().take(q).filter(|x| **x == c).count() == q) {
        i += 1
      }
      i = (i + q).min(b.len());
    } else {
      i += 1
    }
    out.push(b[s..i].iter().collect());
  }
  out
}

/// (where, template with a hole, words)
const VOCAB: &[(&str, &[&str])] = &[
  ("Ref: a.b > c.d [delete: @]", &["cascade", "restrict", "set null", "set default", "no action"]),
  ("Ref: a.b > c.d [update: @]", &["cascade", "restrict", "set null", "set default", "no action"]),
  ("Ref r { a.b > c.d [x, delete:@] }", &["cascade", "restrict", "set null", "set default", "no action"]),
  ("Table t { a int indexes { a [type: @] } }", &["btree", "gin", "gist", "hash"]),
  ("Table t { a int indexes { (a, `b`) [pk, type:@, x] } }", &["btree", "gin", "gist", "hash"]),
  ("@ t { a int }", &["Table"]),
  ("@ t { a }", &["Enum"]),
  ("@ t { a: 1 }", &["Project"]),
  ("@ t { a }", &["TableGroup"]),
  ("@ t { a.b > c.d }", &["Ref"]),
  ("@ { a.b > c.d }", &["Ref"]),
  ("@: a.b > c.d", &["Ref"]),
  ("@{a.b>c.d}", &["Ref"]),
  ("@ { 'x' }", &["Note"]),
  ("@: 'x'", &["Note"]),
  ("Table t { @: 'x' }", &["Note"]),
  ("Table t { @ { 'x' } }", &["Note"]),
  ("TableGroup t { @: 'x' }", &["Note"]),
  ("Project t { @: 'x' }", &["Note"]),
  ("Project t { @ { 'x' } }", &["Note"]),
  ("Table t { a int @ { a } }", &["indexes"]),
  ("Table t @ x { a int }", &["as"]),
  ("Table t { a int [@: > a.b] }", &["ref"]),
  ("Table t { a int [default: @] }", &["true", "false", "null"]),
  ("Project p { k: @\n}", &["true", "false", "null"]),
  ("Table t { a f(@) }", &["true", "false", "null"]),
  ("Ref: a.b @ c.d", &["<>", "<", ">", "-"]),
  ("Table t { a int [ref: @ c.d] }", &["<>", "<", ">", "-"]),
];

const NUMS: &[&str] = &["Table t { a int [default: @] }", "Project p { k: @ }", "Table t { a f(@) }", "Table t { a f(1,@) }", "Table t { a int[@] }", "Table t { a int[][@] }", "Table t { a \"int[@]\" }", "Enum e { a [n: @] }", "Table t { a int indexes { a [n: @] } }", "Ref: a.b > c.d [n: @]", "Table t [n: @] { }", "TableGroup t [n: @] { }"];

pub fn spaces(deep: bool) -> Vec<Space> {
  let mut docs: Vec<String> = gen::small_docs().iter().chain(gen::valid_docs().iter()).map(|s| s.to_string()).collect();
  docs.push(gen::compact(&mut gen::kitchen_sink()));
  let toks: Vec<Vec<String>> = docs.iter().map(|d| lex(d)).collect();
  let (t1, d1, t2) = (toks.clone(), docs.clone(), toks);
  let u1: Vec<Vec<String>> = docs[..docs.len() - 1].iter().map(|d| units(d)).collect();
  let u2 = u1.clone();
  let mut v = vec![
    Space::new("sequences", format!("every sequence of up to 4{} tokens in each of {} syntactic contexts", if deep { " (5 with the first 12 tokens)" } else { "" }, CONTEXTS.len()), 0, move |ch, cx| {
      let c = ch.of(CONTEXTS);
      let n = ch.free(if deep { 6 } else { 5 });
      let sep = if n < 4 { *ch.of(&[" ", "", "\n"]) } else { " " };
      let menu = match n {
        5 => &c.tokens[..c.tokens.len().min(14)],
        4 if !deep => &c.tokens[..c.tokens.len().min(17)],
        _ => c.tokens,
      };
      let mut s = String::new();
      for _ in 0..n {
        s += ch.of(menu);
        s += sep;
      }
      chk(cx, &format!("{}{s}{}", c.pre, c.post))
    }),
    Space::new("token-edits", "every document x every token deleted, doubled, swapped with the next, or any of 56 tokens inserted or substituted", 0, move |ch, cx| {
      let t = ch.of(&t1);
      let at = ch.free(t.len() + 1);
      let how = ch.free(5);
      let mut t = t.clone();
      match how {
        0 => {
          let x = ch.of(TOKENS).to_string();
          let pad = ch.flag();
          t.insert(at, if pad { format!(" {x} ") } else { x });
        }
        1 => {
          let x = ch.of(TOKENS).to_string();
          if at < t.len() {
            t[at] = x
          }
        }
        2 if at < t.len() => {
          t.remove(at);
        }
        3 if at < t.len() => {
          let x = t[at].clone();
          t.insert(at, format!("{x} "));
        }
        4 if at + 1 < t.len() => {
          let k = if t[at + 1].trim().is_empty() && at + 2 < t.len() { at + 2 } else { at + 1 };
          t.swap(at, k)
        }
        _ => (),
      }
      chk(cx, &t.concat())
    }),
    Space::new("runs", "every document with every run of up to 6 (thorough: 12) tokens deleted, or copied or moved to every other place, plainly or behind a comma", 0, move |ch, cx| {
      let t = rerun(ch, &u1, if deep { 12 } else { 6 });
      chk(cx, &t)
    }),
    Space::new("insertions", "every document x every place x every two of 26 tokens, and three of 14 (thorough: 26)", 0, move |ch, cx| {
      const T: &[&str] = &[",", "'x'", "a", ":", ".", "[", "]", "{", "}", "(", ")", "\"q\"", "1", "`f`", ">", "pk", "note", "Note", "'''y'''", "#abc", "1.5", "ref", "[k]", "null", "-", "as"];
      let t = ch.of(&u2);
      let at = ch.free(t.len() + 1);
      let three = ch.flag();
      let m = &T[..if deep { T.len() } else { 14 }];
      let x = if three { format!(" {} {} {} ", ch.of(m), ch.of(m), ch.of(m)) } else { format!(" {} {} ", ch.of(T), ch.of(T)) };
      chk(cx, &format!("{}{x}{}", t[..at].concat(), t[at..].concat()))
    }),
    Space::new("characters", "every document x every position x each ASCII character and 24 others, inserted or substituted", 0, move |ch, cx| {
      let d = ch.of(&d1);
      const MORE: &str = "\u{80}\u{85}\u{a0}\u{ad}é\u{301}ß\u{2003}\u{200b}\u{2028}\u{2029}\u{3000}“”‘’日\u{feff}０９ａİıſK";
      let cs: Vec<_> = d.char_indices().map(|c| c.0).collect();
      let at = ch.free(cs.len() + 1);
      let ins = ch.flag();
      let more: Vec<char> = MORE.chars().collect();
      let k = ch.free(128 + more.len());
      let c = if k < 128 { k as u8 as char } else { more[k - 128] };
      let a = cs.get(at).copied().unwrap_or(d.len());
      let b = if ins { a } else { cs.get(at + 1).copied().unwrap_or(d.len()) };
      chk(cx, &format!("{}{c}{}", &d[..a], &d[b..]))
    }),
    Space::new("words", "each keyword, action, index type, relation and named value: every upper/lower-case pattern (up to 2^12), every one-character deletion, doubling, insertion, replacement, and every adjacent swap", 0, |ch, cx| {
      let (host, words) = ch.of(VOCAB);
      let w: Vec<char> = ch.of(words).chars().collect();
      let how = ch.free(6);
      const C: &[char] = &['a', 'A', 'e', 's', ' ', '_', '1', '-', '\n', '\t', 'é', '.', '"', '\'', 'ſ', 'K'];
      let mut x = w.clone();
      match how {
        0 => {
          for c in x.iter_mut().take(12) {
            if c.is_ascii_alphabetic() && ch.flag() {
              *c = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }
            }
          }
        }
        1 => {
          x.remove(ch.free(w.len()));
        }
        2 => {
          let i = ch.free(w.len());
          x.insert(i, w[i]);
        }
        3 => {
          let i = ch.free(w.len() + 1);
          x.insert(i, *ch.of(C));
        }
        4 => {
          let i = ch.free(w.len());
          x[i] = *ch.of(C);
        }
        _ => {
          let i = ch.free(w.len());
          if i + 1 < w.len() {
            x.swap(i, i + 1)
          }
        }
      }
      let x: String = x.into_iter().collect();
      let quote = ch.free(4);
      let x = match quote {
        0 => x,
        1 => format!("'{x}'"),
        2 => format!("\"{x}\""),
        _ => format!(" {x} "),
      };
      chk(cx, &host.replace('@', &x))
    }),
    Space::new("numbers", "digit strings around every boundary and of every length up to 25, with and without a fraction, in each numeric position", 0, |ch, cx| {
      let host = ch.of(NUMS);
      let d = match ch.free(4) {
        0 => {
          let n = 1 + ch.free(25);
          let c = ch.of(&["9", "0", "1"]);
          let z = ch.free(2);
          format!("{}{}", "0".repeat(z * 3), c.repeat(n))
        }
        1 => {
          let base: u128 = *ch.of(&[0, 1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 63, 1 << 64]);
          let k = ch.free(7) as u128;
          match (base + k).checked_sub(3) {
            Some(x) => x.to_string(),
            None => return,
          }
        }
        2 => {
          let base: u128 = *ch.of(&[i64::MAX as u128 / 10, u32::MAX as u128 / 10, i64::MAX as u128 / 10 + 1, u64::MAX as u128 / 10]);
          format!("{base}{}", ch.free(10))
        }
        _ => ch.of(&["1e5", "1E5", "0x10", "1_000", "+1", "-1", "1-", ".5", "1.5.2", "1 5", "1. 5", "1 .5", "1..5", "١", "1l", "1f", "1.5f", "00", "0b1", "Infinity", "NaN", "inf", "1,5", ""]).to_string(),
      };
      let tail = ch.of(&["", ".", ".0", ".999999999999999999999999999", " ", "\n"]);
      chk(cx, &host.replace('@', &format!("{d}{tail}")))
    }),
    Space::new("hex", "every # string of up to 7 characters over hex digits and one non-digit", 0, move |ch, cx| {
      let n = ch.free(8);
      let s: String = (0..n).map(|_| *ch.of(if n < 5 || deep { &["0", "f", "G"][..] } else { &["a", "g"] })).collect();
      let host = ch.of(&["Table t [c: #@] { }", "Table t { a int [c: #@, x] }", "Project p { c: #@ d: 1 }"]);
      chk(cx, &host.replace('@', &s))
    }),
    Space::new("separators", "every pair of adjacent tokens of every document with the gap removed, or replaced by each of 14 separators", 0, move |ch, cx| {
      let t = ch.of(&t2);
      let at = ch.free(t.len() + 1);
      let s = *ch.of(&["", " ", "  ", "\n", "\r", "\r\n", "\t", "//c\n", "//c", "/**/", "/*c*/", "/*", "\u{b}", "\u{c}", "\u{a0}", "/*/", "/ /", "//*\n"]);
      let mut t = t.clone();
      if at < t.len() && t[at].trim().is_empty() {
        t[at] = s.into()
      } else {
        t.insert(at, s.into())
      }
      chk(cx, &t.concat())
    }),
    Space::new("blocks", "every sequence of up to 3 of 16 good and 14 broken blocks", 0, |ch, cx| {
      let good = gen::small_docs();
      let bad = ["Table t { a }", "Table t { int }", "Tabl t { }", "Enum e { a, b }", "Ref: a.b > c", "Ref a.b > c.d", "Note 'x'", "Project { }", "Project p { a }", "TableGroup { a }", "Table t { indexes { a b c } } }", "Table t { a int", "x", "'x'", "Ref: a.b >> c.d", "Enum { a }"];
      let n = ch.free(4);
      let mut s = String::new();
      for _ in 0..n {
        let k = ch.free(good.len() + bad.len());
        s += if k < good.len() { good[k] } else { bad[k - good.len()] };
        s += "\n";
      }
      chk(cx, &s)
    }),
    Space::new("lists", "every comma list of up to 4 items from {item, nothing, double comma} in every bracketed list", 0, |ch, cx| {
      let (host, item) = *ch.of(&[
        ("Table t [@] { }", "x"),
        ("Table t { a int [@] }", "pk"),
        ("Table t { a int [@] }", "ref: > a.b"),
        ("Table t { a f(@) }", "1"),
        ("Table t { a \"f(@)\" }", "1"),
        ("Table t { indexes { (@) } }", "a"),
        ("Table t { indexes { (@) [pk] } }", "`a`"),
        ("Table t { indexes { a [@] } }", "pk"),
        ("Ref: a.(@) > c.d", "b"),
        ("Ref: a.b > s.c.(@)", "\"b\""),
        ("Ref: a.b > c.d [@]", "x: 1"),
        ("Enum e { a [@] }", "note: 'x'"),
        ("TableGroup g [@] { }", "k"),
        ("Enum e { @ }", "a"),
        ("TableGroup e { @ }", "a"),
      ]);
      let n = ch.free(8);
      let menu = [item, ",", " "];
      let s: String = (0..n).map(|_| *ch.of(&menu[..if n > 5 { 2 } else { 3 }])).collect();
      chk(cx, &host.replace('@', &s))
    }),
  ];
  if deep {
    let t3: Vec<Vec<String>> = gen::small_docs().iter().map(|d| lex(d)).collect();
    v.push(Space::new("two-token-edits", "every small document x two tokens deleted, or substituted by any of 28 tokens", 0, move |ch, cx| {
      let t = ch.of(&t3);
      let a = ch.free(t.len());
      let b = ch.free(t.len());
      if a >= b {
        return;
      }
      let (x, y) = (ch.free(29), ch.free(29));
      let mut t = t.clone();
      t[a] = if x == 0 { String::new() } else { TOKENS[x - 1].into() };
      t[b] = if y == 0 { String::new() } else { TOKENS[y - 1].into() };
      chk(cx, &t.concat())
    }));
  }
  v
}
