//! C24: the cost of a call grows at most quadratically along every family of a bounded set of families.
//! A family is a document with repeated parts; the repetition factor is scaled so that the text length
//! grows fourfold, and the cost of the two members is compared. Costs are the number and volume of the
//! allocations and their peak (exact, from the counting allocator) and the CPU time of the thread.
use super::util::CONTEXTS;
use crate::cost::{self, Cost};
use crate::explore::*;
use std::panic::catch_unwind;

/// CPU time below which a call is cheap whatever it is compared with
const CHEAP_NS: u64 = 250_000_000;
/// quadratic growth over a fourfold length is 16; logarithms, hash tables that double and caches add to that,
/// cubic growth is 64
const MAX_ALLOC: f64 = 28.0;
const MAX_TIME: f64 = 38.0;

fn measure(cx: &mut Cx, text: &str, checked: bool, times: usize) -> (Cost, &'static str) {
  let mut best: Option<(Cost, &'static str)> = None;
  for _ in 0..times {
    cx.input(text);
    let mut kind = "";
    let c = cost::of(|| {
      let r = catch_unwind(|| if checked { dbml_rs::parse_dbml(text).is_ok() } else { dbml_rs::parse_dbml_unchecked(text).is_ok() });
      kind = match r {
        Ok(true) => "accepted",
        Ok(false) => "rejected",
        Err(_) => "panicked",
      };
    });
    if best.as_ref().is_none_or(|b| c.ns < b.0.ns) {
      best = Some((c, kind));
    }
  }
  best.unwrap()
}

/// `small` and `big` are members of one family.
fn compare(cx: &mut Cx, small: &str, big: &str) {
  let f = (big.len() as f64 / small.len() as f64 / 4.0).powi(2).max(1.0);
  for checked in [false, true] {
    cx.impl_calls += 2;
    let (mut s, _) = measure(cx, small, checked, 1);
    let (mut b, kind) = measure(cx, big, checked, 1);
    cx.compared += 1;
    cx.out(&format!("{} {kind} growth of allocations x{} time {}", if checked { "checked" } else { "unchecked" }, step(b.allocs as f64 / s.allocs.max(1) as f64), if b.ns < CHEAP_NS { "cheap".to_string() } else { format!("x{}", step(b.ns as f64 / s.ns.max(1) as f64)) }));
    let name = if checked { "the checked parser" } else { "the unchecked parser" };
    // what is set up once and for all is set up by the smaller call, or by the first of two equal ones
    if b.leaked > 4096 || b.leaked > 0 && measure(cx, big, checked, 1).0.leaked > 0 {
      cx.fail(big, format!("{name} keeps {} bytes after its result is dropped", b.leaked));
    }
    for (what, s, b) in [("allocations", s.allocs, b.allocs), ("bytes allocated", s.bytes, b.bytes), ("peak memory", s.peak, b.peak)] {
      if b as f64 > s as f64 * MAX_ALLOC * f + 65536.0 {
        cx.fail(big, format!("{name}: {what} grow from {s} to {b} as the text grows from {} to {} bytes", small.len(), big.len()));
      }
    }
    let slow = |s: &Cost, b: &Cost| b.ns > CHEAP_NS && b.ns as f64 > s.ns as f64 * MAX_TIME * f;
    // measured again, since other work disturbs the time
    for _ in 0..3 {
      if slow(&s, &b) {
        s = measure(cx, small, checked, 5).0;
        b = measure(cx, big, checked, 2).0;
      }
    }
    if slow(&s, &b) {
      cx.fail(big, format!("{name}: the time grows from {} to {} microseconds as the text grows from {} to {} bytes", s.ns / 1000, b.ns / 1000, small.len(), big.len()));
    }
  }
}

fn step(r: f64) -> &'static str {
  match r {
    r if r < 6.0 => "1-6",
    r if r < 12.0 => "6-12",
    _ => "12 or more",
  }
}

/// One repeated part: what a document with n of them contains.
type Part = (&'static str, fn(usize) -> String);

fn join(n: usize, sep: &str, f: impl Fn(usize) -> String) -> String {
  (0..n).map(f).collect::<Vec<_>>().join(sep)
}
fn cols(n: usize) -> String {
  join(n, " ", |i| format!("c{i} int"))
}
fn names(n: usize) -> String {
  join(n, ",", |i| format!("c{i}"))
}
/// pairs of column numbers, each once
fn pair(i: usize) -> (usize, usize) {
  let b = ((2.0 * i as f64 + 0.25).sqrt() + 0.5) as usize;
  let a = i - b * (b - 1) / 2;
  (a, b)
}
fn root2(n: usize) -> usize {
  ((2 * n) as f64).sqrt() as usize + 3
}

const PARTS: &[Part] = &[
  ("tables with aliases", |n| join(n, "\n", |i| format!("Table ta{i} as tz{i} {{ a int [pk] }}"))),
  ("tables of schemas", |n| join(n, "\n", |i| format!("Table sc{i}.tb {{ a int }}"))),
  ("columns", |n| format!("Table tc {{ {} }}", cols(n))),
  ("columns with unique", |n| format!("Table td {{ {} }}", join(n, " ", |i| format!("c{i} int [unique]")))),
  ("inline references", |n| format!("Table te {{ k int [pk] {} }}", join(n, " ", |i| format!("c{i} int [ref: > te.k]")))),
  ("inline references of one column", |n| format!("Table tf {{ k int [pk{}] }}\n{}", join(n, "", |i| format!(", ref: < tg{i}.a")), join(n, "\n", |i| format!("Table tg{i} {{ a int }}")))),
  ("Refs", |n| format!("Table th {{ k int [pk] {} }}\n{}", cols(n), join(n, "\n", |i| format!("Ref: th.c{i} > th.k")))),
  ("Refs to many tables", |n| format!("Table ti {{ k int [pk] }}\n{}", join(n, "\n", |i| format!("Table tj{i} as tk{i} {{ a int }}\nRef r{i} {{ ti.k < tk{i}.a [delete: cascade] }}")))),
  ("one-to-one Refs", |n| format!("Table tl {{ {} }}\n{}", join(n, " ", |i| format!("c{i} int [unique]")), join(n.max(1) - 1, "\n", |i| format!("Ref: tl.c{i} - tl.c{}", i + 1)))),
  ("many-to-many Refs", |n| format!("Table tm {{ {} }}\n{}", join(n, " ", |i| format!("c{i} int [unique]")), join(n.max(1) - 1, "\n", |i| format!("Ref: tm.c{i} <> tm.c{}", i + 1)))),
  ("a wide Ref", |n| format!("Table tn {{ {} }}\nTable to {{ {} indexes {{ ({}) [pk] }} }}\nRef: tn.({}) > to.({})", cols(n), cols(n), names(n), names(n), names(n))),
  ("composite Refs", |n| {
    let w = root2(n);
    format!("Table tp {{ {} indexes {{ (c0,c1) [pk] }} }}\n{}", cols(w), join(n, "\n", |i| format!("Ref: tp.(c{},c{}) > tp.(c0,c1)", pair(i).0, pair(i).1)))
  }),
  ("wide composite Refs", |n| {
    let w = root2(n / 2).max(2);
    let l = |k: usize| join(w, ",", |i| format!("c{}", i + k));
    format!("Table tq {{ {} indexes {{ ({}) [unique] }} }}\n{}", cols(2 * w), l(0), join(w, "\n", |k| format!("Ref: tq.({}) > tq.({})", l(k), l(0))))
  }),
  ("a wide Ref with repeated columns", |n| format!("Table vb {{ a int b int k int indexes {{ ({0}k) [pk] }} }}\nRef: vb.({0}b) > vb.({0}k)\nRef: vb.({0}a) > vb.({0}k)", "a, ".repeat(n))),
  ("named Refs", |n| format!("Table vc {{ k int [pk] {} }}\n{}", cols(n), join(n, "\n", |i| format!("Ref n{i}: vc.c{i} > vc.k")))),
  ("enums", |n| join(n, "\n", |i| format!("Enum ea{i} {{ v }}"))),
  ("enum values", |n| format!("Enum eb {{ {} }}\nTable tr {{ a eb [default: 'v0'] }}", join(n, " ", |i| format!("v{i}")))),
  ("enum columns", |n| format!("Enum ec {{ {} }}\nTable ts {{ {} }}", join(n, " ", |i| format!("v{i}")), join(n, " ", |i| format!("c{i} ec [default: 'v{i}']")))),
  ("enums of schemas", |n| format!("{}\nTable tt {{ {} }}", join(n, "\n", |i| format!("Enum sd{i}.ed {{ v }}")), join(n, " ", |i| format!("c{i} sd{i}.ed [default: 'v']")))),
  ("unique indexes", |n| format!("Table tu {{ {} indexes {{ {} }} }}", cols(n), join(n, " ", |i| format!("c{i} [unique]")))),
  ("composite indexes", |n| format!("Table tv {{ {} indexes {{ {} }} }}", cols(root2(n)), join(n, " ", |i| format!("(c{},c{}) [unique]", pair(i).0, pair(i).1)))),
  ("typed indexes", |n| format!("Table tw {{ {} indexes {{ {} }} }}", cols(root2(n)), join(n, " ", |i| format!("(c{},c{}) [type: hash]", pair(i).0, pair(i).1)))),
  ("plain indexes of expressions", |n| format!("Table tx {{ a int indexes {{ {} }} }}", join(n, " ", |i| format!("`x{i}`")))),
  ("a wide index", |n| format!("Table ty {{ {} indexes {{ ({}) }} }}", cols(n), names(n))),
  ("wide indexes", |n| {
    let w = root2(n / 2).max(2);
    format!("Table tz {{ {} indexes {{ {} }} }}", cols(2 * w), join(w, " ", |k| format!("({}) [unique]", join(w, ",", |i| format!("c{}", i + k)))))
  }),
  ("groups", |n| format!("Table ua {{ a int }}\n{}", join(n, "\n", |i| format!("TableGroup ga{i} {{ ua }}")))),
  ("group items", |n| format!("{}\nTableGroup gb {{ {} }}", join(n, "\n", |i| format!("Table ub{i} {{ a int }}")), join(n, " ", |i| format!("ub{i}")))),
  ("group items by alias", |n| format!("{}\nTableGroup gc {{ {} }}", join(n, "\n", |i| format!("Table uc{i} as ud{i} {{ a int }}")), join(n, " ", |i| format!("ud{i}")))),
  ("column settings", |n| format!("Table ue {{ a int [{}] }}", join(n, ", ", |i| format!("k{i}: 'x'")))),
  ("table settings", |n| format!("Table uf [{}] {{ a int }}", join(n, ", ", |i| format!("k{i}: 'x'")))),
  ("index settings", |n| format!("Table ug {{ a int indexes {{ a [{}] }} }}", join(n, ", ", |i| format!("k{i}: 'x'")))),
  ("enum value settings", |n| format!("Enum ee {{ v [{}] }}", join(n, ", ", |i| format!("k{i}: 'x'")))),
  ("Ref settings", |n| format!("Table uh {{ k int [pk] }}\nRef: uh.k - uh.k [{}]", join(n, ", ", |i| format!("k{i}: 'x'")))),
  ("group settings", |n| format!("TableGroup gd [{}] {{ }}", join(n, ", ", |i| format!("k{i}: 'x'")))),
  ("project properties", |n| format!("Project q {{ {} }}", join(n, " ", |i| format!("k{i}: 'x'")))),
  ("notes", |n| join(n, "\n", |_| "Note { 'x' }".into())),
  ("notes of a table", |n| format!("Table ui {{ a int {} }}", join(n, " ", |_| "Note: 'x'".into()))),
  ("indexes blocks", |n| format!("Table uj {{ a int {} }}", join(n, " ", |_| "indexes { a }".into()))),
  ("type arguments", |n| format!("Enum ef {{ v }}\nTable uk {{ a ef({}) }}", join(n, ",", |i| i.to_string()))),
  ("array dimensions", |n| format!("Table ul {{ a int{} }}", "[1]".repeat(n))),
  ("a long string", |n| format!("Table um {{ a varchar(100000) [default: '{}'] }}", "é".repeat(n))),
  ("long strings", |n| format!("Table un {{ {} }}", join(root2(n), " ", |i| format!("c{i} varchar(100000) [default: '{}']", "é".repeat(root2(n)))))),
  ("a long name", |n| format!("Table \"{}\" {{ \"{}\" int }}", "é".repeat(n), "é ".repeat(n))),
  ("long names", |n| format!("Table uo {{ k int [pk] {} }}", join(root2(n), " ", |i| format!("c{i}{} int [ref: > uo.k, unique]", "x".repeat(root2(n)))))),
  ("a long number", |n| format!("Table up {{ a int [default: 0.{}] }}", "12".repeat(n))),
  ("a long expression", |n| format!("Table uq {{ a int [default: `{}`] }}", "f(".repeat(n))),
  ("lines of a note", |n| format!("Note {{ '''{}''' }}", "  x'\n".repeat(n))),
  ("line comments", |n| "// '\"\n".repeat(n)),
  ("block comments", |n| "/* ' */ ".repeat(n)),
  ("a long comment", |n| format!("/*{}*/", "/* ".repeat(n))),
  ("blanks", |n| " \n\t".repeat(n)),
  ("blanks in a table", |n| format!("Table ur {{{} a int{} }}", " \n".repeat(n), " // x\n".repeat(n))),
];

/// what follows the scaled parts: nothing, or something that is rejected at the very end
const ENDS: &[(&str, &str)] = &[
  ("accepted", ""),
  ("stray brace", "\n}"),
  ("open string", "\nNote: 'x"),
  ("open comment", "\n/* x"),
  ("second project", "\nProject p2 { }"),
  ("missing table", "\nRef: nope.a > nope.b"),
  ("unknown enum", "\nTable zz { a nope [default: 'x'] }"),
  ("repeated reference", "\nTable zz { a int [pk] b int }\nRef: zz.b > zz.a\nRef: zz.a < zz.b"),
];

fn document(parts: &[&Part], n: usize, end: &str) -> String {
  let mut t = String::new();
  if !parts.iter().any(|p| p.0 == "project properties") {
    t += "Project p { }\n";
  }
  for p in parts {
    t += &(p.1)(n);
    t.push('\n');
  }
  t + end
}

/// the repetition that gives a text of about `len` bytes
fn scale(len: usize, f: &dyn Fn(usize) -> String) -> usize {
  let (mut lo, mut hi) = (4, 8);
  while f(hi).len() < len {
    lo = hi;
    hi *= 2;
  }
  while hi - lo > 1 + lo / 64 {
    let m = (lo + hi) / 2;
    if f(m).len() < len {
      lo = m
    } else {
      hi = m
    }
  }
  hi
}

fn family(cx: &mut Cx, len: usize, f: &dyn Fn(usize) -> String) {
  let small = f(scale(len, f));
  if !cx.case(&small) {
    return;
  }
  let big = f(scale(4 * len, f));
  compare(cx, &small, &big);
}

/// A valid document with every construct; names that are numbered when repeated are marked.
const BASE: &str = "Project @p { database_type: 'x' @o: 1 Note: 'p' }
Note { 'n' }
Table @s.@t as @x [color: #abc, @q: 'é'] { @a int [pk, note: 'n'] @b int [unique, null, default: null] @c @s.@e [default: @v, @r: `e`] @d varchar(3) [unique, default: 'abc', ref: > @w.@j, ref: < @w.@m] @f \"int\" [default: 1.5, not null] @g int[][2] Note: 't' indexes { (@a, @b) [unique, name: 'i'] `f` @c [type: gin] (@b, `h`) [note: '''z'''] } }
Table @w { @k int [primary key] @j varchar(3) [unique] @m varchar(3) @l int @i int indexes { (@l, @i) [unique: 1] } }
Enum @s.@e { @v [note: 'n'] @u }
Ref @h: @x.@a - @w.@k [delete: cascade, update: no action]
Ref @y { @s.@t.(@a, @b) > @w.(@l, @i) }
// c
/* d */ TableGroup @z [@n: 'x'] { @x @w Note { 'g' } }
";

/// tokens with the blanks that follow them
fn pieces(t: &str) -> Vec<String> {
  let mut v: Vec<String> = vec![];
  let c: Vec<char> = t.chars().collect();
  let mut i = 0;
  while i < c.len() {
    let from = i;
    match c[i] {
      '\'' | '"' | '`' => {
        let q = if c[i..].starts_with(&['\'', '\'', '\'']) { 3 } else { 1 };
        i += q;
        while c[i..i + q] != c[from..from + q] {
          i += 1;
        }
        i += q;
      }
      '/' if c[i + 1] == '/' => {
        while c[i] != '\n' {
          i += 1;
        }
      }
      '/' => {
        while !c[i..].starts_with(&['*', '/']) {
          i += 1;
        }
        i += 2;
      }
      x if x.is_alphanumeric() || x == '@' || x == '_' => {
        i += 1;
        while c[i].is_alphanumeric() || c[i] == '_' {
          i += 1;
        }
      }
      _ => i += 1,
    }
    while i < c.len() && c[i].is_whitespace() {
      i += 1;
    }
    v.push(c[from..i].iter().collect());
  }
  v
}

fn balanced(p: &[String]) -> bool {
  let mut open = vec![];
  for t in p {
    match t.chars().next() {
      Some(c @ ('(' | '[' | '{')) => open.push(c),
      Some(c @ (')' | ']' | '}')) => {
        if !matches!((open.pop(), c), (Some('('), ')') | (Some('['), ']') | (Some('{'), '}')) {
          return false;
        }
      }
      _ => (),
    }
  }
  open.is_empty()
}

/// the tokens as text, their marked names numbered
fn numbered(p: &[String], k: usize) -> String {
  let name = |t: &String| match t.strip_prefix('@') {
    Some(r) if k > 0 => {
      let w = r.trim_end();
      format!("{w}{k}{}", &r[w.len()..])
    }
    Some(r) => r.to_string(),
    None => t.clone(),
  };
  p.iter().map(name).collect()
}

pub fn spaces(deep: bool) -> Vec<Space> {
  let k = if deep { 4 } else { 1 };
  vec![
    Space::new("parts", "each of 52 repeated parts x each of 8 endings, 12 to 48 kB (thorough: 24 to 96 kB)", 0, move |ch, cx| {
      let p = ch.of(PARTS);
      let e = ch.of(ENDS);
      family(cx, 12288 * k.min(2), &|n| document(&[p], n, e.1));
    }),
    Space::new("pairs", "each pair of repeated parts growing together x accepted or rejected at the end, 8 to 32 kB (thorough: 24 to 96 kB)", 0, move |ch, cx| {
      let a = ch.free(PARTS.len());
      let b = ch.free(PARTS.len());
      let e = &ENDS[[0, 7][ch.free(if deep { 2 } else { 1 })]];
      if a < b {
        family(cx, if deep { 24576 } else { 8192 }, &|n| document(&[&PARTS[a], &PARTS[b]], n, e.1));
      }
    }),
    Space::new("all", "all parts growing together, and all but one, 48 to 192 kB", 0, move |ch, cx| {
      let skip = ch.free(PARTS.len() + 1);
      let v: Vec<_> = PARTS.iter().enumerate().filter(|(i, _)| i + 1 != skip).map(|p| p.1).collect();
      if skip > 0 && !deep && skip % 5 != 0 {
        return;
      }
      family(cx, 49152, &|n| document(&v, n, ""));
    }),
    Space::new("ranges", "a document with every construct, each bracketed range of its tokens repeated with and without new names, with and without a separating comma, 8 to 32 kB (thorough: 32 to 128 kB)", 0, move |ch, cx| {
      let p = pieces(BASE);
      let i = ch.free(p.len());
      let j = i + 1 + ch.free(p.len() - i);
      if !balanced(&p[i..j]) {
        return;
      }
      let new = ch.flag();
      let sep = *ch.of(&["", ", "]);
      let f = |n: usize| {
        let mut t = numbered(&p[..i], 0);
        for k in 0..n {
          t += if k > 0 { sep } else { "" };
          t += &numbered(&p[i..j], if new { k } else { 0 });
        }
        t + &numbered(&p[j..], 0)
      };
      family(cx, 8192 * k, &f);
    }),
    Space::new("runs", "a document with every construct, a run of each of 12 characters put in at every position, 4 to 16 kB (thorough: 16 to 64 kB)", 0, move |ch, cx| {
      let t: String = pieces(BASE).iter().map(|p| p.trim_start_matches('@')).collect();
      let at: Vec<_> = t.char_indices().map(|c| c.0).chain([t.len()]).collect();
      let Some(at) = ch.big(at.len()).map(|i| at[i]) else { return };
      let c = *ch.of(&["x", "7", " ", "\n", "é", "'", "\"", "/", "*", "(", "[]", "// \n"]);
      family(cx, 4096 * k, &|n| format!("{}{}{}", &t[..at], c.repeat(n), &t[at..]));
    }),
    Space::new("tokens", "every unit of 1 or 2 (thorough: 3) tokens of each syntactic context, repeated as (uv)^n and u^n v^n, with and without blanks, with and without the closing text, 2 to 8 kB", 0, move |ch, cx| {
      let c = ch.of(CONTEXTS);
      let m = 1 + ch.free(if deep { 3 } else { 2 });
      let u: Vec<&str> = (0..m).map(|_| *ch.of(c.tokens)).collect();
      let sep = *ch.of(&[" ", ""]);
      let post = *ch.of(&[c.post, ""]);
      let split = m == 2 && ch.flag();
      let f = |n: usize| {
        let mut t = if c.pre.starts_with("Project") || c.pre.is_empty() { c.pre.to_string() } else { format!("Project p {{ }}\n{}", c.pre) };
        if split {
          t += &format!("{}{sep}", u[0]).repeat(n);
          t += &format!("{}{sep}", u[1]).repeat(n);
        } else {
          t += &u.iter().map(|u| format!("{u}{sep}")).collect::<String>().repeat(n);
        }
        t + post
      };
      family(cx, 2048, &f);
    }),
    Space::new("characters", "every unit of 1 or 2 (thorough: 3) of 24 characters repeated, alone, in a string, in a comment, as a setting, a type and a name, 2 to 8 kB", 0, move |ch, cx| {
      const A: &[char] = &['/', '*', '\'', '"', '`', '\\', ' ', '\n', '\r', 'a', '1', '-', '.', '#', '(', ')', '[', ']', '{', '}', ':', ',', '<', 'é'];
      const H: &[(&str, &str)] = &[("", ""), ("Project p { }\nNote: '", "'"), ("Project p { }\nNote: '''", "'''"), ("Project p { }/*", "*/"), ("Project p { }\nTable t { a int [default: ", "] }"), ("Project p { }\nTable t { a ", " }"), ("Project p { }\nTable \"", "\" { }")];
      let m = 1 + ch.free(if deep { 3 } else { 2 });
      let u: String = (0..m).map(|_| *ch.of(A)).collect();
      let (pre, post) = *ch.of(H);
      family(cx, 2048, &|n| format!("{pre}{}{post}", u.repeat(n)));
    }),
  ]
}
