//! C10..C19: document machines around the semantic rules. Each machine turns choices into one document text.
use crate::explore::{Ch, Space};
use crate::oracle;
use crate::refparse;
use crate::refsem::TYPES;

pub struct M {
  pub prop: &'static str,
  pub name: &'static str,
  pub about: String,
  pub bound: u32,
  pub gen: Box<dyn Fn(&mut Ch) -> Option<String> + Send + Sync>,
}

fn m(prop: &'static str, name: &'static str, about: &str, bound: u32, gen: impl Fn(&mut Ch) -> Option<String> + Send + Sync + 'static) -> M {
  M { prop, name, about: about.into(), bound, gen: Box::new(gen) }
}

pub const P: &str = "Project p {}\n";

/// How far the verdict is compared.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Mode {
  /// accepted or rejected
  Verdict,
  /// message and location too
  Place,
  /// only that it returns
  Total,
  /// both entry points against each other (C09)
  Pure,
}

pub fn space(m: M, mode: Mode) -> Space {
  let M { name, about, bound, gen, .. } = m;
  Space::new(name, about, bound, move |ch, cx| {
    let Some(t) = gen(ch) else { return };
    if cx.case(&t) {
      match mode {
        Mode::Verdict => oracle::verdict_only(cx, &t),
        Mode::Place => oracle::semantics(cx, &t),
        Mode::Total => oracle::total(cx, &t),
        Mode::Pure => super::hist::agree(cx, &t),
      }
    }
  })
}

/// the machines of one property, verdicts only
pub fn of(prop: &'static str, deep: bool) -> Vec<Space> {
  let mut v: Vec<_> = all(1 + deep as usize).into_iter().filter(|m| m.prop == prop).map(|m| space(m, Mode::Verdict)).collect();
  v.extend(super::edits::of(prop, deep));
  v
}

/// All machines, with message and location, and the catalogue of violations.
pub fn c19(deep: bool) -> Vec<Space> {
  let mut v = every(1 + deep as usize, Mode::Place);
  v.extend(catalogue(deep).into_iter().map(|m| space(m, Mode::Place)));
  v
}

/// lengths of lists: all up to `max`, and some beyond the widths of machine words and bytes
fn size(ch: &mut Ch, min: usize, max: usize, level: usize) -> usize {
  let large: &[usize] = [&[][..], &[66, 300], &[33, 66, 129, 257, 300, 1025]][level];
  let i = ch.free(max + 1 - min + large.len());
  if i <= max - min { min + i } else { large[i - (max + 1 - min)] }
}

/// a position in a list: any of a short one, the notable ones of a long one
fn at(ch: &mut Ch, n: usize) -> usize {
  if n <= 30 {
    return ch.free(n);
  }
  let mut v: Vec<usize> = [0, 1, 64, 256, n - 1].into_iter().filter(|i| *i < n).collect();
  v.dedup();
  *ch.of(&v)
}

/// the machines of all properties
pub fn every(level: usize, mode: Mode) -> Vec<Space> {
  all(level)
    .into_iter()
    .map(|m| {
      let name = format!("{}/{}", m.prop, m.name);
      let mut s = space(m, mode);
      s.name = name;
      s
    })
    .collect()
}

/// level 0: as part of a check over all machines; 1: quick check of the property; 2: thorough
pub fn all(deep: usize) -> Vec<M> {
  let mut v = vec![];
  v.extend(names(deep));
  v.extend(keys(deep));
  v.extend(indexes(deep));
  v.extend(types(deep));
  v.extend(enums(deep));
  v.extend(endpoints(deep));
  v.extend(fit(deep));
  v.extend(conflicts(deep));
  v.extend(groups(deep));
  v.extend(wide(deep));
  v.extend(separators(deep));
  v.push(super::edits::machine(None, 1, deep > 0));
  v.push(super::edits::padded(None, deep));
  if deep > 1 {
    v.push(super::edits::machine(None, 2, true));
  }
  v
}

/* ------------------------------------------------------------------ C10 */

fn names(level: usize) -> Vec<M> {
  let deep = level >= 1;
  const S: &[&str] = &["", "public.", "\"public\".", "s.", "\"s\".", "S."];
  const N: &[&str] = &["t", "\"t\"", "T", "u", "\"t \""];
  const A: &[&str] = &["", " as x", " as \"x\"", " as X", " as t", " as u"];
  const NAMES: &[&str] = &["a", "\"a\"", "\" a\"", "A", "b", "\"a \"", "\"a\"\"\""];
  let mut v = vec![
    m("C10", "tables-2", "two tables: schema x name x alias of each, every spelling pair", 0, |ch| {
      let mut t = P.to_string();
      for _ in 0..2 {
        t += &format!("Table {}{}{} {{ a int }}\n", ch.of(S), ch.of(N), ch.of(A));
      }
      Some(t)
    }),
    m("C10", "tables-3", "three tables over schemas {-, public, s} x names {t, u} x aliases {-, x, t}", 0, |ch| {
      let mut t = P.to_string();
      for _ in 0..3 {
        t += &format!("Table {}{}{} {{ a int }}\n", ch.of(&["", "public.", "s."]), ch.of(&["t", "u"]), ch.of(&["", " as x", " as t"]));
      }
      Some(t)
    }),
    m("C10", "enums-2", "two enums and a table, every schema and name spelling", 0, |ch| {
      let mut t = P.to_string();
      for _ in 0..2 {
        t += &format!("Enum {}{} {{ a }}\n", ch.of(S), ch.of(N));
      }
      t += &format!("Table {}{}{} {{ a int }}\n", ch.of(&["", "s."]), ch.of(N), ch.of(&["", " as t", " as a"]));
      Some(t)
    }),
    m("C10", "enums-3", "three enums over four schemas x two names", 0, |ch| {
      let mut t = P.to_string();
      for _ in 0..3 {
        t += &format!("Enum {}{} {{ a }}\n", ch.of(&["", "public.", "s.", "q."]), ch.of(&["t", "u"]));
      }
      Some(t)
    }),
    m("C10", "members", "2-4 columns, enum values, properties or groups over name spellings; second scope with the same names", 0, |ch| {
      let kind = ch.free(4);
      let n = 2 + ch.free(3);
      let names: Vec<_> = (0..n).map(|_| *ch.of(if n < 4 { NAMES } else { &NAMES[..5] })).collect();
      Some(match kind {
        0 => format!("{P}Table t {{ {} }}\nTable u {{ a int b int }}\n", names.iter().map(|n| format!("{n} int\n")).collect::<String>()),
        1 => format!("{P}Enum t {{ {} }}\nEnum u {{ a b }}\n", names.join(" ")),
        2 => format!("Project p {{ {} }}\n", names.iter().map(|n| format!("{}: 1\n", if n.starts_with('"') { "a x" } else { n })).collect::<String>()),
        _ => format!("{P}{}Table a {{ }}\nEnum a {{ }}", names.iter().map(|n| format!("TableGroup {n} {{ }}\n")).collect::<String>()),
      })
    }),
    m("C10", "projects", "0-3 projects at every position among other blocks", 0, |ch| {
      let mut t = String::new();
      let other = ["Table a { b int }\n", "Enum a { b }\n", "Note { 'x' }\n"];
      for i in 0..4 {
        if ch.flag() {
          t += ch.of(&["Project p { }\n", "PROJECT \"q\" { Note: 'a' k: 1 Note: 'b' }\n", "Project Project {}\n"]);
        }
        if i < 3 && ch.flag() {
          t += other[i];
        }
      }
      Some(t)
    }),
    m("C10", "props", "project properties and notes: sequences of up to 4", 0, |ch| {
      let n = ch.free(5);
      let mut t = "Project p {\n".to_string();
      for _ in 0..n {
        t += ch.of(&["a: 1\n", "a: 'x'\n", "A: 1\n", "a b: 1\n", "database_type: 'PostgreSQL'\n", "database_type: 'x'\n", "Note: 'n'\n", "Note { 'm' }\n"]);
      }
      Some(t + "}\n")
    }),
    m("C10", "setting-keys", "every settings list of up to 3 keys, for each kind of host; a second host with the same keys", 0, move |ch| {
      const K: &[&str] = &["x", "X", "x: 1", "x y", "note: 'n'", "note", "pk", "primary key", "unique", "increment", "name: 'n'", "color: #fff", "delete: cascade", "update: restrict", "default: `x`", "not null", "null", "type: hash", "type", "xy"];
      let host = ch.free(7);
      let n = if deep { 2 + ch.free(2) } else { 2 };
      let mut l: Vec<&str> = vec![];
      for _ in 0..n {
        l.push(ch.of(K));
      }
      if !deep && ch.flag() {
        l.insert(1, "z");
      }
      Some(host_with(host, &l.join(", ")))
    }),
    m("C10", "scale", "n members of each kind of scope, the i-th and the j-th with the same name (or none)", 0, move |ch| {
      let kind = ch.free(11);
      let n = size(ch, 2, [12, 24, 30][level], level);
      let j = at(ch, n);
      let i = if j == 0 { 0 } else { at(ch, j + 1) }; // i == j: no duplicate
      let name = |k: usize| format!("n{}", if k == j { i } else { k });
      let all = |f: &dyn Fn(String) -> String| (0..n).map(|k| f(name(k))).collect::<Vec<_>>();
      Some(match kind {
        0 => P.to_string() + &all(&|x| format!("Table {x} {{ a int }}\n")).concat(),
        1 => P.to_string() + &all(&|x| format!("Table s.{x} {{ a int }}\n")).concat(),
        2 => P.to_string() + &all(&|x| format!("Enum {x} {{ a }}\n")).concat(),
        3 => P.to_string() + &all(&|x| format!("Enum s.{x} {{ a }}\n")).concat(),
        4 => P.to_string() + &all(&|x| format!("TableGroup {x} {{ }}\n")).concat(),
        5 => format!("{P}Table t {{ {} }}", all(&|x| format!("{x} int\n")).concat()),
        6 => format!("{P}Enum t {{ {} }}", all(&|x| format!("{x}\n")).concat()),
        7 => format!("Project p {{ {} }}", all(&|x| format!("{x}: 1\n")).concat()),
        8 => P.to_string() + &(0..n).map(|k| format!("Table t{k} as {} {{ a int }}\n", name(k))).collect::<String>(),
        9 => format!("{P}Table t {{ a int [{}] }}", all(&|x| x).join(", ")),
        _ => host_with(1 + j % 6, &all(&|x| x + ": 1").join(", ")),
      })
    }),
  ];
  if level == 2 {
    v.push(m("C10", "members-5", "five columns, enum values or groups over name spellings", 0, |ch| {
      let kind = ch.free(3);
      let names: Vec<_> = (0..5).map(|_| *ch.of(NAMES)).collect();
      Some(match kind {
        0 => format!("{P}Table t {{ {} }}", names.iter().map(|n| format!("{n} int\n")).collect::<String>()),
        1 => format!("{P}Enum t {{ {} }}", names.join(" ")),
        _ => format!("{P}{}", names.iter().map(|n| format!("TableGroup {n} {{ }}\n")).collect::<String>()),
      })
    }));
    v.push(m("C10", "tables-3-all", "three tables: every schema x name x alias spelling", 0, |ch| {
      let mut t = P.to_string();
      for _ in 0..3 {
        t += &format!("Table {}{}{} {{ }}\n", ch.of(S), ch.of(N), ch.of(A));
      }
      Some(t)
    }));
  }
  if deep {
    v.push(m("C10", "tables-3-full", "three tables: schema x name x alias of each over larger menus", 0, |ch| {
      let mut t = P.to_string();
      for _ in 0..3 {
        t += &format!("Table {}{}{} {{ a int }}\n", ch.of(&S[..4]), ch.of(&N[..4]), ch.of(&A[..5]));
      }
      Some(t)
    }));
  }
  v
}

/// A document in which settings list `l` stands on one of seven kinds of host.
fn host_with(host: usize, l: &str) -> String {
  let ok = "Table w { k int [pk] }\nTable q { k int }\n";
  match host {
    0 => format!("{P}{ok}Table t [{l}] {{ a int }}\nTable u [x] {{ a int }}"),
    1 => format!("{P}{ok}Table t {{ a int [{l}] b int [x] }}"),
    2 => format!("{P}{ok}Table t {{ a int b int indexes {{ a [{l}] (a, b) [x] }} }}"),
    3 => format!("{P}{ok}Enum e {{ a [{l}] b [x] }}"),
    4 => format!("{P}{ok}Ref: q.k > w.k [{l}]"),
    5 => format!("{P}{ok}Ref r {{ q.k > w.k [{l}] }}"),
    _ => format!("{P}{ok}TableGroup g [{l}] {{ w }}\nTableGroup h [x] {{ w }}"),
  }
}

/* ------------------------------------------------------------------ C11 */

fn keys(level: usize) -> Vec<M> {
  let deep = level >= 1;
  const C: &[&str] = &["", " [pk]", " [primary key]", " [pk, not null]", " [null, pk]", " [primary key, null]", " [null]", " [not null]", " [null, not null]", " [not null, unique, null]", " [unique]", " [increment, pk, unique]", " [primary key, pk]"];
  const T: &[&str] = &["int", "int[]", "varchar(5)[3]", "\"int[]\""];
  const X: &[&str] = &["", "a [pk]", "(a) [pk]", "(a, b) [pk]", "a [pk]\nb [pk]", "(a, b) [pk]\n(b, a) [pk]", "a [unique]\nb", "`f` [pk]", "a [unique]\n(b, a) [pk, name: 'k']", "b [pk]\na [unique]\na [pk]", "a\nb\n(a, b) [pk]", "a [type: hash]\nb [note: 'x', pk]"];
  let ix = |x: &str| if x.is_empty() { String::new() } else { format!("indexes {{ {x} }}\n") };
  let mut v = vec![
    m("C11", "two-columns", "two columns' key settings x array type, with every index menu, block before or after the columns", 0, move |ch| {
      let (t1, c1, t2, c2) = (ch.of(&T[..2]), ch.of(C), ch.of(&T[..2]), ch.of(C));
      let x = ix(ch.of(X));
      let before = !x.is_empty() && ch.flag();
      Some(format!("{P}Table t {{ {}a {t1}{c1}\nb {t2}{c2}\n{} }}", if before { &x } else { "" }, if before { "" } else { &x }))
    }),
    m("C11", "one-column", "one column: every sequence of up to 4 key settings, array and scalar types", 0, move |ch| {
      const K: &[&str] = &["pk", "primary key", "null", "not null", "unique", "increment", "note: 'null'", "default: 1", "x: null", "Null", "pk2"];
      let n = ch.free(if deep { 6 } else { 5 });
      let t = ch.of(T);
      let mut l: Vec<&str> = vec![];
      for _ in 0..n {
        l.push(if n < 4 { ch.of(K) } else { ch.of(&K[..8]) });
      }
      Some(format!("{P}Table t {{ a {t} [{}] }}", l.join(", ")))
    }),
    m("C11", "two-tables", "key settings in two tables do not add up", 0, move |ch| {
      let mut t = P.to_string();
      for n in ["t", "s.t"] {
        t += &format!("Table {n} {{ a int{}\nb int\n{} }}\n", ch.of(C), ix(ch.of(X)));
      }
      Some(t)
    }),
    m("C11", "scale", "n columns, the i-th and j-th primary keys (by setting or index), the k-th nullable or an array", 0, move |ch| {
      let n = size(ch, 1, if deep { 16 } else { 9 }, level);
      let (i, j, k) = (at(ch, n), at(ch, n), at(ch, n));
      let (how, odd) = (ch.free(4), ch.free(3));
      let mut t = format!("{P}Table t {{\n");
      for c in 0..n {
        let mut l = vec![];
        if c == i && how != 3 {
          l.push("pk")
        }
        if c == j && i != j && how == 1 {
          l.push("primary key")
        }
        if c == k && odd == 1 {
          l.push("null")
        }
        t += &format!("c{c} int{} [{}]\n", if c == k && odd == 2 { "[]" } else { "" }, l.join(", "));
      }
      if how >= 2 {
        t += &format!("indexes {{ c{k} (c{i}, c{j}, c{k}) [unique] c{j} [pk] }}\n");
      }
      Some(t + "}")
    }),
  ];
  if level == 2 {
    v.push(m("C11", "four-columns", "four columns' key settings, with every index menu", 0, move |ch| {
      let mut t = format!("{P}Table t {{ ");
      for c in ["a", "b", "c", "d"] {
        t += &format!("{c} int{}\n", ch.of(C));
      }
      Some(t + &ix(ch.of(X)) + "}")
    }));
  }
  if deep {
    v.push(m("C11", "three-columns", "three columns' key settings x array type, with every index menu", 0, move |ch| {
      let mut t = format!("{P}Table t {{ ");
      for c in ["a", "b", "c"] {
        t += &format!("{c} {}{}\n", ch.of(&T[..2]), ch.of(C));
      }
      Some(t + &ix(ch.of(X)) + "}")
    }));
  }
  v
}

/* ------------------------------------------------------------------ C12 */

fn indexes(level: usize) -> Vec<M> {
  let deep = level >= 1;
  const L: &[&str] = &["a", "(a)", "\"a\"", "`a`", "(`a`)", "b", "(a, b)", "(b, a)", "(`a`, b)", "(a, `b`)", "(a, \"b\")", "`a, b`", "()", "z", "(a, z)", "A", "(a, a)", "(a, b, c)", "`A`", "(b, `a`)"];
  const S: &[&str] = &["", " []", " [pk]", " [unique]", " [type: btree]", " [type: hash]", " [type: gin]", " [name: 'x']", " [unique, name: 'y']", " [note: 'n', type: btree]", " [pk, unique]", " [pk, type: hash]", " [unique, type: gist]", " [unique, pk, type: gin]", " [type]"];
  const U: &[&str] = &["", " [unique]"];
  let mut v = vec![
    m("C12", "two", "two index definitions: every pair of column lists x settings, column a unique or not", 0, |ch| {
      let u = ch.of(U);
      let mut t = format!("{P}Table t {{ a int{u}\nb int\nc int\nindexes {{ ");
      for _ in 0..2 {
        t += &format!("{}{}\n", ch.of(L), ch.of(S));
      }
      Some(t + "} }")
    }),
    m("C12", "three", "three index definitions over eight column lists x six settings", 0, |ch| {
      let mut t = format!("{P}Table t {{ a int\nb int\nindexes {{ ");
      for _ in 0..3 {
        t += &format!("{}{}\n", ch.of(&["a", "b", "`a`", "(a, b)", "(b, a)", "(`a`, b)", "`a, b`", "(`b`, a)"]), ch.of(&["", " [unique]", " [type: hash]", " [type: btree]", " [pk]", " [name: 'x']"]));
      }
      Some(t + "} }")
    }),
    m("C12", "columns-unique", "each column's own unique setting and up to two unique index definitions; two tables", 0, |ch| {
      let mut t = P.to_string();
      for n in ["t", "u"] {
        t += &format!("Table {n} {{ a int{}\n\"b\" int{}\n\"a b\" int\nindexes {{ ", ch.of(U), ch.of(&["", " [unique]", " [unique, pk]"]));
        for _ in 0..if n == "t" { 2 } else { 1 } {
          t += ch.of(&["", "a [unique]\n", "b [unique]\n", "(a, b) [unique]\n", "(b, a) [unique]\n", "`a` [unique]\n", "\"a b\" [unique]\n", "(a, a) [unique]\n"]);
        }
        t += "} }\n";
      }
      Some(t)
    }),
    m("C12", "missing", "lists of up to 3 columns and expressions over declared and undeclared names", 0, |ch| {
      let n = ch.free(4);
      let l: Vec<_> = (0..n).map(|_| *ch.of(&["a", "\"b c\"", "`z`", "z", "\"a\"", "u", "\"b  c\"", "A", "\"\"", "` a`"])).collect();
      let s = ch.of(&["", " [pk]", " [unique]", " [type: hash]", " [note: 'x']"]);
      let other = ch.of(&["", "a\n", "(a, \"b c\") [unique]\n"]);
      Some(format!("{P}Table u {{ u int z int }}\nTable t {{ a int\n\"b c\" int\nindexes {{ {other}({}){s} }} }}\nEnum z {{ z }}", l.join(", ")))
    }),
    m("C12", "permutations", "two definitions over permutations and prefixes of (a, b, c, `d`) with each pair of kinds", 0, |ch| {
      let mut t = format!("{P}Table t {{ a int b int c int indexes {{ ");
      for _ in 0..2 {
        let mut pool = vec!["a", "b", "c", "`d`"];
        let n = 1 + ch.free(4);
        let l: Vec<_> = (0..n).map(|_| pool.remove(ch.free(pool.len()))).collect();
        t += &format!("({}){}\n", l.join(", "), ch.of(&["", " [unique]", " [type: gist]", " [type: gin]"]));
      }
      Some(t + "} }")
    }),
    m("C12", "scale", "n definitions over distinct columns, the j-th a repetition of the i-th (or not), each kind", 0, move |ch| {
      let n = size(ch, 2, [11, 17, 30][level], level);
      let j = at(ch, n);
      let i = if j == 0 { 0 } else { at(ch, j + 1) };
      let kind = *ch.of(&["", "[unique]", "[type: btree]", "[type: gin, name: 'i']"]);
      let form = ch.free(3);
      let name = |k: usize| if k == j { i } else { k };
      let mut t = format!("{P}Table t {{\n");
      for k in 0..=n {
        t += &format!("c{k} int\n")
      }
      t += "indexes {\n";
      for k in 0..n {
        let x = name(k);
        t += &match form {
          0 => format!("c{x} {kind}\n"),
          1 => format!("(c{x}, `e{}`) {kind}\n", x / 2),
          _ => format!("(c{}, c{x}) {kind}\n", x + 1),
        };
      }
      Some(t + "} }")
    }),
  ];
  if level == 2 {
    v.push(m("C12", "four", "four index definitions over seven column lists x five settings", 0, |ch| {
      let mut t = format!("{P}Table t {{ a int\nb int\nindexes {{ ");
      for _ in 0..4 {
        t += &format!("{}{}\n", ch.of(&["a", "`a`", "(a, b)", "(b, a)", "(`a`, b)", "`a, b`", "(a)"]), ch.of(&["", " [unique]", " [type: hash]", " [type: btree]", " [name: 'x']"]));
      }
      Some(t + "} }")
    }));
  }
  if deep {
    v.push(m("C12", "three-wide", "three index definitions over a larger menu of column lists x settings, column a unique or not", 0, move |ch| {
      let u = ch.of(U);
      let mut t = format!("{P}Table t {{ a int{u}\nb int\nc int\nindexes {{ ");
      for _ in 0..3 {
        t += &format!("{}{}\n", ch.of(&L[..if level == 2 { 14 } else { 9 }]), ch.of(&S[..if level == 2 { 9 } else { 6 }]));
      }
      Some(t + "} }")
    }));
  }
  v
}

/* ------------------------------------------------------------------ C13 */

/// every spelling of every built-in type, as it is written
pub fn spellings() -> Vec<String> {
  TYPES.iter().flat_map(|r| r.iter()).flat_map(|t| if t.contains(' ') { vec![t.to_string()] } else { vec![t.to_string(), format!("\"{t}\"")] }).collect()
}
/// a spelling with arguments, quoted if it has blanks
fn spelt(t: &str, args: &str) -> String {
  if let Some(q) = t.strip_prefix('"') {
    return format!("\"{}{args}\"", &q[..q.len() - 1]);
  }
  if t.contains(' ') {
    format!("\"{t}{args}\"")
  } else {
    format!("{t}{args}")
  }
}

fn types(level: usize) -> Vec<M> {
  let deep = level >= 1;
  const ARGS: &[&str] = &["", "()", "(0)", "(1)", "(3)", "(5)", "(1,2)", "(1,2,3)", "('x')", "(1,'x')", "(true)", "(null)", "(1.5)", "(`e`)", "(#abc)", "(9223372036854775807)", "('1')", "(20,1)", "(1,20)", "(65,64)", "(9223372036854775807,0)", "(0,9223372036854775807)", "(256)"];
  const DEF: &[&str] = &["", "''", "'a'", "'abc'", "'abcd'", "'éé'", "'日本語'", "'😀😀😀😀'", "'''abc'''", "1", "40000", "1.5", "true", "false", "null", "`now()`", "`null`", "#fff", "word", "two words", "\"dq\"", "\"abc\""];
  const INTS: &[&str] = &["0", "1", "127", "128", "255", "256", "32766", "32767", "32768", "32769", "65535", "65536", "2147483646", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775806", "9223372036854775807", "0000032768", "9999999999"];
  const NULLS: &[&str] = &["", "null, ", "not null, "];
  let pick = |l: &[&str], d: &str| {
    let mut x: Vec<String> = l.iter().map(|s| s.to_string()).collect();
    if !d.is_empty() {
      x.push(format!("default: {d}"));
    }
    x.join(", ")
  };
  let sp = spellings();
  let (sp1, sp2, sp3) = (sp.clone(), sp.clone(), sp.clone());
  let mut v = vec![
    m("C13", "types", "every built-in type spelling x argument list x default x nullability", 0, move |ch| {
      let t = ch.of(&sp1).clone();
      let (a, d, n) = (ch.of(ARGS), ch.of(DEF), ch.of(NULLS));
      let l = if d.is_empty() { n.trim_end_matches(", ").to_string() } else { format!("{n}default: {d}") };
      Some(format!("{P}Table t {{ a {} [{l}] }}", spelt(&t, a)))
    }),
    m("C13", "integers", "every type spelling x boundary integers x argument", 0, move |ch| {
      let t = ch.of(&sp2).clone();
      let a = ch.of(&["", "(3)", "(1,2)", "[]", "[2]"]);
      Some(format!("{P}Table t {{ a {} [default: {}] }}", spelt(&t, a), ch.of(INTS)))
    }),
    m("C13", "strings", "char, varchar, bit, varbit in every spelling and length 0-6 x strings of up to 5 characters over a multi-byte alphabet", 0, move |ch| {
      let t = *ch.of(&["char", "character", "varchar", "character varying", "bit", "varbit", "bit varying", "\"char\"", "text", "bytea"]);
      let n = ch.free(7);
      let a = if n == 6 { String::new() } else { format!("({n})") };
      let k = ch.free([5, 6, 7][level]);
      let s: String = (0..k).map(|_| *ch.of(&["a", "é", "日", "😀", " ", "\n"])).collect();
      let (q, arr) = *ch.of(&[("'", ""), ("'''", ""), ("\"", ""), ("'", "[]")]);
      Some(format!("{P}Table t {{ a {} [default: {q}{s}{q}] }}", spelt(t, &(a + arr))))
    }),
    m("C13", "two-columns", "two columns with independent types and defaults, in one table or two", 0, move |ch| {
      const C: &[&str] = &["smallint [default: 32768]", "integer [default: 32768]", "bigint [default: 2147483648]", "int2 [default: 32767]", "int [default: 2147483648]", "bool [default: true]", "text [default: true]", "char(2) [default: 'ab']", "char(2) [default: 'abc']", "varchar(2) [default: 'a']", "varchar(2) [default: 'abc']", "char [default: 'abc']", "text [null, default: null]", "text [default: null]", "text [null]", "text [not null, default: null]", "decimal(1,2)", "decimal(1)", "decimal", "int(1)", "time(1)", "time(1,2)", "timestamptz(1)", "bit(1) [default: '1']", "bit(1) [default: '10']", "e", "e [null, default: null]", "varbit(1) [default: '']", "json [default: `true`]", "boolean [null, default: false]", "date(1)", "varchar('1')"];
      let (a, b) = (ch.of(C), ch.of(C));
      let sep = ch.of(&["\n", " }\nTable u {\n"]);
      Some(format!("{P}Table t {{ a {a}{sep}b {b} }}\nEnum e {{ a }}"))
    }),
    m("C13", "null-settings", "default null among every sequence of up to 3 other settings, on built-in and enum columns", 0, move |ch| {
      const K: &[&str] = &["null", "not null", "unique", "pk", "note: 'null'", "x: null", "Null", "increment"];
      let n = ch.free(4);
      let mut l: Vec<&str> = (0..n).map(|_| *ch.of(K)).collect();
      let at = ch.free(n + 1);
      l.insert(at, ch.of(&["default: null", "default:null", "default: `null`", "default: 'null'"]));
      let t = ch.of(&["int", "e", "varchar(2)", "bool", "int[]", "text[2]", "e[]"]);
      Some(format!("{P}Enum e {{ null }}\nTable t {{ a {t} [{}] }}", pick(&l, "")))
    }),
    m("C13", "args-depth", "argument lists of up to 4 values over every value kind, for types that take 0, 1 or 2", 0, move |ch| {
      let t = ch.of(&["int", "varchar", "decimal", "numeric", "time with time zone", "uuid", "e", "char"]);
      let n = ch.free(if deep { 5 } else { 4 });
      let l: Vec<_> = (0..n).map(|_| *ch.of(&["1", "0", "'1'", "null", "true", "1.0", "`1`", "#111"])).collect();
      Some(format!("{P}Enum e {{ a }}\nTable t {{ a {} }}", spelt(t, &format!("({})", l.join(",")))))
    }),
    m("C13", "unknown-types", "near misses of built-in spellings are enum types: no argument or range rules", 0, move |ch| {
      let t = ch.of(&sp3).clone();
      let t = t.trim_matches('"');
      let t = match ch.free(6) {
        0 => t.to_uppercase(),
        1 => format!("{t}x"),
        2 => format!("s.{}", if t.contains(' ') { format!("\"{t}\"") } else { t.to_string() }),
        3 => format!("public.{}", if t.contains(' ') { format!("\"{t}\"") } else { t.to_string() }),
        4 => t[1..].to_string(),
        _ => t.replace(' ', "_"),
      };
      let t = if t.contains('.') || !t.as_bytes()[0].is_ascii_digit() { t } else { return None };
      let a = ch.of(&["", "(1)", "(1,'x')"]);
      let t = if t.contains('.') { if t.ends_with('"') { format!("{}{a}\"", &t[..t.len() - 1]) } else { format!("{t}{a}") } } else { spelt(&t, a) };
      Some(format!("{P}Table t {{ a {t} [{}] }}", ch.of(&["", "default: 99999999999", "default: 'abc'", "default: true", "null, default: null"])))
    }),
  ];
  if deep {
    v.push(m("C13", "types-arrays", "every type spelling x arguments x default x array forms", 0, move |ch| {
      let t = ch.of(&sp).clone();
      let a = ch.of(&ARGS[..10]);
      let d = ch.of(&DEF[9..]);
      let arr = ch.of(&["[]", "[3]", "[][2]"]);
      let n = ch.of(NULLS);
      let l = if d.is_empty() { n.trim_end_matches(", ").to_string() } else { format!("{n}default: {d}") };
      Some(format!("{P}Table t {{ a {}{arr} [{l}] }}", spelt(&t, a)))
    }));
  }
  v
}

/* ------------------------------------------------------------------ C14 */

fn enums(level: usize) -> Vec<M> {
  let deep = level >= 1;
  const E: &[&str] = &["", "Enum e { a b }\n", "Enum \"e\" { b \"c d\" \"1\" \"true\" null }\n", "Enum public.e { a }\n", "Enum s.e { a s }\n", "Enum \"s\".\"e\" { b }\n", "Enum E { a }\n", "Enum \"x.y\".e { a }\n", "Enum e { }\n", "Enum f { a }\n", "Enum \"e f\" { a }\n", "Enum y.e { b }\n"];
  const T: &[&str] = &["e", "\"e\"", "public.e", "\"public\".e", "s.e", "\"s\".e", "s.\"e\"", "E", "nope", "s.nope", "q.e", "\"x.y\".e", "e[]", "s.e[2]", "\"e f\"", "e(1)", "y.e", "S.e"];
  const D: &[&str] = &["", "a", "'a'", "\"a\"", "b", "A", "c d", "'c d'", "1", "'1'", "true", "'true'", "null", "'null'", "`a`", "1.5", "#abc", "e.a", "''", "s"];
  let place = |ch: &mut Ch, t: &str, e1: &str, e2: &str| match ch.free(3) {
    0 => format!("{P}{e1}{e2}{t}"),
    1 => format!("{P}{e1}{t}{e2}"),
    _ => format!("{t}{e1}{e2}{P}"),
  };
  vec![
    m("C14", "one-enum", "every enum declaration x type spelling x default x nullability x order", 0, move |ch| {
      let (e1, ty, d) = (*ch.of(E), ch.of(T), *ch.of(D));
      let n = ch.of(&["", "null, "]);
      let d = if d == "e.a" { "e_a" } else { d };
      let l = if d.is_empty() { n.trim_end_matches(", ").to_string() } else { format!("{n}default: {d}") };
      let host = ch.of(&["t", "s.t"]);
      let t = format!("Table {host} {{ k {ty} [{l}] }}\n");
      Some(place(ch, &t, e1, ""))
    }),
    m("C14", "two-enums", "every pair of enum declarations x type spelling x default, in three orders", 0, move |ch| {
      let (e1, e2) = (*ch.of(&E[1..]), *ch.of(&E[1..]));
      let ty = ch.of(if deep { T } else { &T[..12] });
      let d = ch.of(if deep { &D[1..] } else { &D[1..7] });
      let t = format!("Table t {{ k {ty} [default: {d}] }}\n");
      Some(place(ch, &t, e1, e2))
    }),
    m("C14", "two-columns", "two enum columns with independent defaults", 0, |ch| {
      const C: &[&str] = &["e [default: a]", "e [default: b]", "e [default: z]", "s.e [default: b]", "s.e [default: a]", "public.e [default: a]", "f [default: a]", "s.f [default: b]", "nope", "nope [default: a]", "e", "e [null, default: null]", "e [default: `f()`]", "\"e\" [default: 'a', note: 'b']", "int [default: 1]", "e [note: 'z', default: a]"];
      let (a, b) = (ch.of(C), ch.of(C));
      let sep = ch.of(&["\n", " }\nTable s.u {\n"]);
      Some(format!("{P}Enum e {{ a }}\nTable t {{ k {a}{sep}l {b} }}\nEnum s.e {{ b }}\nEnum f {{ a }}"))
    }),
    m("C14", "scale", "n enums of n values over schemas, the i-th enum's j-th value as default (or a value of another enum)", 0, move |ch| {
      let n = size(ch, 1, if deep { 12 } else { 7 }, level);
      let (i, j, x) = (at(ch, n), at(ch, n), at(ch, n));
      let values = |k: usize| if n <= 30 || k == i || k == x { n } else { 2 };
      let sch = |k: usize| if k % 2 == 0 { format!("s{}.", k / 2) } else { String::new() };
      let q = ch.of(&["", "\"", "'"]);
      let mut t = P.to_string();
      let at = ch.free(2);
      for k in 0..n {
        if at == 0 && k == x || at == 1 && k == 0 {
          t += &format!("Table t {{ c {}e{i} [default: {q}v{x} {j}{q}] }}\n", sch(i));
        }
        t += &format!("Enum {}e{k} {{ {} }}\n", sch(k), (0..values(k)).map(|l| format!("\"v{k} {l}\" ")).collect::<String>());
      }
      Some(t)
    }),
  ]
}

/* ------------------------------------------------------------------ C15 */

fn endpoints(level: usize) -> Vec<M> {
  let deep = level >= 1;
  const B: &str = "a int [unique]\nb int [unique]\nindexes { (a, b) [pk] }";
  const D1: &[&str] = &["t", "public.t", "s.t", "t as x", "s.t as x", "s.t as t", "t as u", "s.t as u", "\"t\" as \"x\"", "t as t"];
  const D2: &[&str] = &["", "u", "s.u", "u as t", "s.u as t", "public.u as y", "u as \"u\"", "q.t", "q.t as y"];
  const SC: &[&str] = &["", "public.", "\"public\".", "s.", "q.", "x.", "S.", "Public."];
  const TB: &[&str] = &["t", "u", "x", "y", "\"t\"", "T", "\"x\"", "X"];
  let tables = |d1: &str, d2: &str| format!("{P}Table {d1} {{ {B} }}\n{}", if d2.is_empty() { String::new() } else { format!("Table {d2} {{ {B} }}\n") });
  let wide = deep;
  vec![
    m("C15", "one-end", "table declarations x one endpoint in every spelling, on either side of Ref, and inline", 0, move |ch| {
      let (d1, d2) = (*ch.of(D1), *ch.of(D2));
      let e = format!("{}{}.{}", ch.of(SC), ch.of(TB), ch.of(&["a", "\"b\"", "A", "z"]));
      let own = d1.split(" as ").next().unwrap();
      let own = format!("{own}.a");
      Some(match ch.free(if wide { 5 } else { 4 }) {
        0 => format!("{}Ref: {own} > {e}", tables(d1, d2)),
        1 => format!("{}Ref {{ {e} < {own} }}", tables(d1, d2)),
        2 => format!("{}Table w {{ {B} c int [ref: > {e}] }}", tables(d1, d2)),
        3 => format!("{P}Table {d1} {{ {B} c int [ref: - {e}] }}\n{}", if d2.is_empty() { String::new() } else { format!("Table {d2} {{ {B} }}\n") }),
        _ => format!("{}Ref: {e} - {e}", tables(d1, d2)),
      })
    }),
    m("C15", "two-ends", "table declarations x both endpoints over the spellings of tables t, u, x", 0, move |ch| {
      let (d1, d2) = (*ch.of(&D1[..8]), *ch.of(&D2[..5]));
      let n = if deep { 7 } else { 3 };
      let mut e = vec![];
      for _ in 0..2 {
        e.push(format!("{}{}.a", ch.of(&["", "public.", "s."]), ch.of(&TB[..n])));
      }
      Some(format!("{}Ref: {} > {}", tables(d1, d2), e[0], e[1]))
    }),
    m("C15", "inline", "an inline reference on either of two tables, target in every spelling", 0, move |ch| {
      let (d1, d2) = (*ch.of(D1), *ch.of(&D2[1..]));
      let e = format!("{}{}.{}", ch.of(&SC[..5]), ch.of(&TB[..6]), ch.of(&["a", "b", "z"]));
      let i = ch.free(2);
      let r = format!("c int [unique, ref: - {e}]\n");
      Some(format!("{P}Table {d1} {{ {}{B} }}\nTable {d2} {{ {}{B} }}\n", if i == 0 { &r } else { "" }, if i == 1 { &r } else { "" }))
    }),
    m("C15", "composite", "composite endpoints over declared and undeclared columns, both sides", 0, move |ch| {
      const L: &[&str] = &["(a, b)", "(b, a)", "(a, z)", "(z, b)", "(\"a\", \"b\")", "(a, B)", "(z, y)", "(c, d)", "(d, c)"];
      let s = *ch.of(&["", "s.", "public."]);
      let (l, r) = (ch.of(L), ch.of(L));
      let rel = ch.of(&["<", ">", "-", "<>"]);
      let tb = ch.of(&["u", "t", "x", "zz"]);
      Some(format!("{P}Table t {{ {B} }}\nTable {s}u as x {{ c int\n d int\n indexes {{ (d, c) [unique] }} }}\nRef: t.{l} {rel} {}{tb}.{r}", ch.of(&["", "s.", "public."])))
    }),
    m("C15", "column-menu", "columns of several tables: each endpoint column is looked up in its own table", 0, move |ch| {
      const C: &[&str] = &["a", "b", "c", "t", "u", "e", "\"a b\"", "\"a  b\"", "v", "\"\""];
      let (l, r) = (ch.of(C), ch.of(C));
      let (tl, tr) = (ch.of(&["t", "u", "v"]), ch.of(&["t", "u", "v"]));
      Some(format!("{P}Table t {{ a int [unique] \"a b\" int [unique] u int [unique] }}\nTable u {{ b int [unique]\n t int [unique] \"\" int [unique] }}\nTable s.v as v {{ c int [unique] }}\nEnum e {{ v }}\nRef: {tl}.{l} - {tr}.{r}"))
    }),
    m("C15", "scale", "n tables over schemas and aliases, the i-th referring to the j-th by name or alias, or one beyond", 0, move |ch| {
      let n = size(ch, 1, [6, 9, 14][level], level);
      let (i, j, k) = (at(ch, n), at(ch, n + 1), at(ch, n + 1));
      let how = ch.free(4);
      let sch = |k: usize| ["", "s.", "public.", "r."][k % 4];
      let mut t = P.to_string();
      for x in 0..n {
        t += &format!("Table {}t{x} as l{x} {{ ", sch(x));
        for c in 0..if n <= 30 || x == i || x == j { n } else { 2 } {
          t += &format!("c{c} int [unique{}]\n", if how == 2 && x == i && c == 0 { format!(", ref: - l{j}.c{k}") } else { String::new() });
        }
        t += "}\n";
      }
      match how {
        0 => t += &format!("Ref: l{i}.c0 > {}t{j}.c{k}", sch(j)),
        1 => t += &format!("Ref: {}t{i}.c0 < l{j}.c{k}", sch(i)),
        3 => t = format!("Ref: {}t{i}.c{k} < {}t{j}.c0\n{t}", sch(i), sch(j + 1)),
        _ => (),
      }
      Some(t)
    }),
  ]
}

/* ------------------------------------------------------------------ C16 */

fn fit(level: usize) -> Vec<M> {
  let deep = level >= 1;
  let mut ty: Vec<String> = TYPES.iter().flat_map(|r| r.iter()).map(|t| spelt(t, "")).collect();
  for (t, a) in [("char", "(1)"), ("character", "(1)"), ("char", "(2)"), ("varchar", "(1)"), ("varchar", "(2)"), ("character varying", "(2)"), ("bit", "(2)"), ("varbit", "(2)"), ("bit varying", "(2)"), ("decimal", "(1,2)"), ("numeric", "(1,2)"), ("numeric", "(2,1)"), ("decimal", "(1,3)"), ("time", "(1)"), ("time without time zone", "(1)"), ("timetz", "(1)"), ("timestamp", "(1)"), ("timestamp", "(2)"), ("timestamptz", "(2)")] {
    ty.push(spelt(t, a));
  }
  ty.extend(["e", "\"e\"", "public.e", "s.e", "\"s\".e", "E", "f", "s.f", "e(1)", "e(2)", "\"x.y\".e", "y.e"].map(String::from));
  let arr = ["int", "int[]", "int[3]", "int[4]", "int[][]", "integer[]", "int4[3]", "\"int[]\"", "\"int[3]\"[]", "int[3][]", "varchar(2)[]", "varchar(3)[]", "\"character varying(2)\"[]", "e[]", "public.e[]", "s.e[]", "e[1]", "bigint[]", "int[0]", "int[][3]"];
  const CS: &[&str] = &["", " [pk]", " [primary key]", " [unique]", " [not null]", " [increment, unique, note: 'pk']"];
  const IX: &[&str] = &["", "a [pk]", "(a) [unique]", "a", "a [type: btree]", "`a` [unique]", "(a, b) [pk]", "(b, a) [unique]", "(a, `b`) [unique]", "b [unique]", "(a, b, c) [unique]", "(a, b)", "a [unique]\nb [unique]", "\"a\" [name: 'x', unique]", "(a, b) [unique, note: 'y']\na [type: gin]", "(c, b) [unique]\nc"];
  let tyx = ty.clone();
  let ty3: Vec<String> = ["int", "bigint", "int4", "varchar(2)", "e", "s.e"].map(String::from).to_vec();
  let mut v = vec![
    m("C16", "type-pairs", "every pair of type spellings, with arguments and enum types", 0, move |ch| {
      let (a, b) = (ch.of(&tyx), ch.of(&tyx));
      let r = *ch.of(&["Ref: t.a > u.b", "Ref: u.b < t.a"][..if deep { 2 } else { 1 }].to_vec());
      Some(format!("{P}Table t {{ a {a} }}\nTable u {{ b {b} [unique] }}\n{r}"))
    }),
    m("C16", "array-pairs", "every pair of array types, three notations, four relations", 0, move |ch| {
      let (a, b) = (ch.of(&arr), ch.of(&arr));
      let rel = ch.of(&["<", ">", "-", "<>"]);
      Some(match ch.free(3) {
        0 => format!("{P}Table t {{ a {a} [unique, ref: {rel} u.b] }}\nTable u {{ b {b} [unique] }}"),
        1 => format!("{P}Table t {{ a {a} [unique] }}\nTable u {{ b {b} [unique] }}\nRef: t.a {rel} u.b"),
        _ => format!("{P}Table t {{ a {a} [unique]\n b {b} [unique, ref: {rel} t.a] }}"),
      })
    }),
    m("C16", "single-keys", "single columns: column setting x index menu on both sides x relation", 0, move |ch| {
      let (c1, x1, c2, x2) = (ch.of(CS), ch.of(IX), ch.of(if deep { CS } else { &CS[..4] }), ch.of(IX));
      let rel = ch.of(&["<", ">", "-", "<>"]);
      let r = *ch.of(&["Ref: t.a {} u.a", "Ref: t.(a) {} u.a"][..if deep { 2 } else { 1 }].to_vec());
      Some(format!("{P}Table t {{ a int{c1}\nb int\nc int\nindexes {{ {x1} }} }}\nTable u {{ a int{c2}\nb int\nc int\nindexes {{ {x2} }} }}\n{}", r.replace("{}", rel)))
    }),
    m("C16", "inline-keys", "inline references: column setting x index menu on both sides x relation, and within one table", 0, move |ch| {
      let rel = ch.of(&["<", ">", "-", "<>"]);
      let c1 = ch.of(&["", "pk, ", "unique, ", "not null, ", "primary key, "]);
      let x1 = ch.of(IX);
      Some(if ch.flag() {
        let (c2, x2) = (ch.of(CS), ch.of(&IX[..8]));
        format!("{P}Table t {{ a int [{c1}ref: {rel} u.a]\nb int\nc int\nindexes {{ {x1} }} }}\nTable u {{ a int{c2}\nb int\nc int\nindexes {{ {x2} }} }}")
      } else {
        let c2 = ch.of(CS);
        format!("{P}Table t {{ a int [{c1}ref: {rel} t.b]\nb int{c2}\nc int\nindexes {{ {x1} }} }}")
      })
    }),
    m("C16", "composite-keys", "two-column endpoints in both orders: index menu on both sides x relation", 0, move |ch| {
      const L: &[&str] = &["(a, b)", "(b, a)", "(a, c)", "(c, b)"];
      let (l, x1, r, x2) = (ch.of(L), ch.of(IX), ch.of(if deep { L } else { &L[..2] }), ch.of(IX));
      let rel = ch.of(&["<", ">", "-", "<>"]);
      let cs = ch.of(&["", " [pk]", " [unique]"]);
      Some(format!("{P}Table t {{ a int\nb int\nc int\nindexes {{ {x1} }} }}\nTable u {{ a int{cs}\nb int\nc int\nindexes {{ {x2} }} }}\nRef: t.{l} {rel} u.{r}"))
    }),
    m("C16", "types-keys", "keys of every kind on either side, on columns of types with arguments, arrays and enums", 0, move |ch| {
      let t = ch.of(&["int", "varchar(9)", "decimal(3,1)", "\"character varying(9)\"", "int[]", "int[3]", "e", "s.e", "nope"]);
      let rel = ch.of(&["<", ">", "-", "<>"]);
      let pair = ch.flag();
      let key = |ch: &mut Ch| *ch.of(if pair { &["", "(a, b)", "(a, b) [unique]", "(a, b) [pk]"][..] } else { &["", "a", "a [unique]", "a [pk]", "u", "p"] });
      let (k1, k2) = (key(ch), key(ch));
      let table = |n: &str, k: &str| {
        let (set, ix) = match k {
          "u" => (" [unique]", ""),
          "p" => (" [pk]", ""),
          k => ("", k),
        };
        format!("Table {n} {{ a {t}{set}\nb {t}\nindexes {{ {ix} }} }}\n")
      };
      let (l, r) = if pair { ("t.(a, b)", "u.(a, b)") } else { ("t.a", "u.a") };
      Some(format!("{P}Enum e {{ x }}\nEnum s.e {{ x }}\n{}{}Ref: {l} {rel} {r}", table("t", k1), table("u", k2)))
    }),
    m("C16", "composite-types", "three-column endpoints in every order, column types from a menu: which pair decides", 0, move |ch| {
      let t1: Vec<_> = (0..3).map(|_| ch.of(&ty3).clone()).collect();
      let k = ch.free(3);
      let t2 = ch.of(&ty3).clone();
      let mut u: Vec<_> = t1.clone();
      u[k] = t2;
      let mut pool = vec!["a", "b", "c"];
      let r: Vec<_> = (0..3).map(|_| pool.remove(ch.free(pool.len()))).collect();
      Some(format!("{P}Table t {{ a {}\nb {}\nc {} }}\nTable u {{ a {}\nb {}\nc {}\nindexes {{ (b, c, a) [unique] }} }}\nRef: t.(a, b, c) > u.({})", t1[0], t1[1], t1[2], u[0], u[1], u[2], r.join(", ")))
    }),
    m("C16", "counts", "1-4 columns against 1-4 columns, keys on both sides, each relation and notation", 0, move |ch| {
      let (n, k) = (1 + ch.free(4), 1 + ch.free(4));
      let rel = ch.of(&["<", ">", "-", "<>"]);
      let cols = |n: usize| ["a", "b", "c", "d"][..n].join(", ");
      let t = |t: &str| format!("Table {t} {{ a int b int c int d int indexes {{ a [unique] (a, b) [unique] (a, b, c) [unique] (a, b, c, d) [pk] }} }}\n");
      let end = |ch: &mut Ch, t: &str, n: usize| if n == 1 && ch.flag() { format!("{t}.a") } else { format!("{t}.({})", cols(n)) };
      let l = end(ch, "t", n);
      let other = ch.of(&["u", "t"]);
      let r = end(ch, other, k);
      Some(match ch.free(3) {
        0 => format!("{P}{}{}Ref: {l} {rel} {r}", t("t"), t("u")),
        1 => format!("{P}{}{}Ref x {{ {l} {rel} {r} }}", t("t"), t("u")),
        _ => format!("{P}{}{}Table v {{ a int [unique, ref: {rel} {r}] }}", t("t"), t("u")),
      })
    }),
    m("C16", "repeated-columns", "endpoints that may repeat a column, against index lists that may repeat one or contain an expression", 0, move |ch| {
      let n = 1 + ch.free(3);
      let end: Vec<_> = (0..n).map(|_| *ch.of(&["a", "b"])).collect();
      let k = 1 + ch.free(3);
      let idx: Vec<_> = (0..k).map(|_| *ch.of(&["a", "b", "`a`", "`c`"])).collect();
      let set = ch.of(&["pk", "unique"]);
      let rel = ch.of(&["<", "-", "<>"]);
      Some(format!("{P}Table t {{ a int\nb int\nindexes {{ ({}) [{set}] }} }}\nTable u {{ x int\ny int\nz int\nindexes {{ {} }} }}\nRef: t.({}) {rel} u.({})", idx.join(", "), if *rel == "<>" { "x [unique] (x, y) [unique] (x, y, z) [unique]" } else { "" }, end.join(", "), ["x", "y", "z"][..n].join(", ")))
    }),
    m("C16", "key-permutations", "n-column key declared in one order, referenced in another, possibly one column short or swapped for another", 0, move |ch| {
      let n = 2 + ch.free(if deep { 4 } else { 3 });
      let perm = |ch: &mut Ch| {
        let mut pool: Vec<usize> = (0..n).collect();
        (0..n).map(|_| pool.remove(ch.free(pool.len()))).collect::<Vec<_>>()
      };
      let key = if n <= 4 { perm(ch) } else { (0..n).rev().collect() };
      let want = perm(ch);
      let miss = ch.free(3);
      let list = |v: &[usize], odd: bool| v.iter().enumerate().map(|(i, k)| if odd && i == v.len() - 1 { "z".to_string() } else { format!("c{k}") }).collect::<Vec<_>>().join(", ");
      let cols: String = (0..n).map(|k| format!("c{k} int\n")).collect();
      let key = match miss {
        1 => list(&key[..n - 1], false),
        2 => list(&key, true),
        _ => list(&key, false),
      };
      Some(format!("{P}Table t {{ {cols} z int }}\nTable u {{ {cols} z int\nindexes {{ ({key}) [unique] }} }}\nRef: u.({}) < t.({})", list(&want, false), list(&want, false)))
    }),
  ];
  if deep {
    v.push(m("C16", "type-rels", "type pairs over a shorter menu x relations x notations", 0, move |ch| {
      let (a, b) = (ch.of(&ty), ch.of(&ty[..30]));
      let rel = ch.of(&["<", "-", "<>"]);
      Some(format!("{P}Table t {{ a {a} [unique] }}\nTable u {{ b {b} [unique, ref: {rel} t.a] }}"))
    }));
  }
  v
}

/* ------------------------------------------------------------------ C17 */

fn conflicts(level: usize) -> Vec<M> {
  let deep = level >= 1;
  fn doc(inl: &[(usize, String)], refs: &[String]) -> String {
    let mut t = P.to_string();
    for (k, (d, n)) in [("t as x", 0), ("s.u as y", 1)].iter().enumerate() {
      t += &format!("Table {d} {{ ");
      for (c, col) in ["a", "b", "c"].iter().enumerate() {
        let id = n * 3 + c;
        let r: String = inl.iter().filter(|i| i.0 == id).map(|i| format!(", ref: {}", i.1)).collect();
        t += &format!("{col} int [unique{r}]\n");
      }
      t += if k == 0 { "indexes { (a, b) [pk] (b, c) [unique] (a, c) [unique] (a, b, c) [unique] } }\n" } else { "indexes { (a, b) [unique] (c, b) [unique] (c, a) [pk] (a, b, c) [unique] } }\n" };
    }
    for r in refs {
      t += &format!("Ref: {r}\n");
    }
    t
  }
  /// spelling k of an endpoint
  fn spell(e: &(usize, &[&str]), k: usize) -> String {
    let t = match (e.0, k) {
      (0, 1) => "x",
      (0, 2) => "public.t",
      (0, 3) => "\"t\"",
      (1, 1) => "y",
      (1, 2) => "s.\"u\"",
      (1, 3) => "\"s\".u",
      (0, _) => "t",
      _ => "s.u",
    };
    let c: Vec<_> = e.1.iter().map(|c| if k == 3 { format!("\"{c}\"") } else { c.to_string() }).collect();
    if c.len() == 1 && k != 4 {
      format!("{t}.{}", c[0])
    } else {
      format!("{t}.({})", c.join(", "))
    }
  }
  const E1: &[(usize, &[&str])] = &[(0, &["a"]), (0, &["b"]), (1, &["a"]), (1, &["b"])];
  const E2: &[(usize, &[&str])] = &[(0, &["a", "b"]), (0, &["b", "a"]), (0, &["b", "c"]), (1, &["a", "b"]), (1, &["b", "a"])];
  const RELS: &[&str] = &[">", "<", "-", "<>"];
  fn one(ch: &mut Ch, set: &[(usize, &[&str])], inl: &mut Vec<(usize, String)>, refs: &mut Vec<String>, spelled: bool) {
    let (l, r) = (ch.of(set), ch.of(set));
    let rel = ch.of(RELS);
    if spelled {
      let rs = spell(r, ch.dev(5));
      match ch.dev(if l.1.len() == 1 { 6 } else { 5 }) {
        5 => inl.push((l.0 * 3 + (l.1[0].as_bytes()[0] - b'a') as usize, format!("{rel} {rs}"))),
        k => refs.push(format!("{} {rel} {rs}", spell(l, k))),
      }
    } else {
      refs.push(format!("{} {rel} {}", spell(l, 0), spell(r, 0)));
    }
  }
  let b = if level == 2 { 2 } else { 1 };
  vec![
    m("C17", "single-pairs", "two single-column relationships, every endpoint and relation, spellings varied", b, |ch| {
      let (mut i, mut r) = (vec![], vec![]);
      one(ch, E1, &mut i, &mut r, true);
      one(ch, E1, &mut i, &mut r, true);
      Some(doc(&i, &r))
    }),
    m("C17", "composite-pairs", "two composite relationships, every endpoint and relation, spellings varied", b, |ch| {
      let (mut i, mut r) = (vec![], vec![]);
      one(ch, E2, &mut i, &mut r, true);
      one(ch, E2, &mut i, &mut r, true);
      Some(doc(&i, &r))
    }),
    m("C17", "mixed", "a single-column and a composite relationship in both orders", 0, |ch| {
      let (mut i, mut r) = (vec![], vec![]);
      one(ch, E1, &mut i, &mut r, false);
      one(ch, E2, &mut i, &mut r, false);
      if ch.flag() {
        r.reverse()
      }
      Some(doc(&i, &r))
    }),
    m("C17", "inline-pairs", "two inline references, on the same or different columns", 0, |ch| {
      let mut i = vec![];
      for _ in 0..2 {
        let at = ch.free(6);
        let e = ch.of(&["x.a", "t.b", "public.t.c", "y.a", "s.u.b", "t.a", "y.c", "s.u.(a)"]);
        i.push((at, format!("{} {e}", ch.of(RELS))));
      }
      Some(doc(&i, &[]))
    }),
    m("C17", "triples", "three relationships over single-column endpoints", 0, move |ch| {
      let (mut i, mut r) = (vec![], vec![]);
      let pair = [E1[0], E1[2]];
      let set = [&pair[..], &E1[..3], E1][level];
      for _ in 0..3 {
        one(ch, set, &mut i, &mut r, false);
      }
      Some(doc(&i, &r))
    }),
    m("C17", "scale", "n relationships from distinct columns, the j-th made to conflict with the i-th (or not)", 0, move |ch| {
      let n = size(ch, 2, if deep { 15 } else { 9 }, level);
      let j = at(ch, n);
      let i = if j == 0 { 0 } else { at(ch, j + 1) };
      let form = ch.free(6);
      let mut t = format!("{P}Table k {{ id int [pk] }}\nTable t as x {{\n");
      for c in 0..n {
        t += &format!("c{c} int [unique{}]\n", if form == 4 && c == i && i != j { ", ref: > k.id" } else { "" });
      }
      t += "}\nTable s.u { ";
      for c in 0..n {
        t += &format!("d{c} int [unique]\n");
      }
      t += "}\n";
      for c in 0..n {
        let same = c == j && i != j;
        let x = if same { i } else { c };
        t += &match form {
          0 => format!("Ref: t.c{x} > k.id\n"),
          1 => if same { format!("Ref: k.id < x.c{x}\n") } else { format!("Ref r{c} {{ t.c{x} > k.id }}\n") },
          2 => if same { format!("Ref: s.u.d{x} - t.c{x}\n") } else { format!("Ref: t.c{x} - s.u.d{x}\n") },
          3 => format!("Ref: t.c{x} <> s.u.d{x}\n"),
          4 => if c == i && i != j { String::new() } else { format!("Ref: t.c{x} > k.id\n") },
          _ => if same { format!("Ref: t.c{x} - s.u.d{c}\n") } else { format!("Ref: t.c{x} - s.u.d{x}\n") },
        };
      }
      Some(t)
    }),
  ]
}

/* ------------------------------------------------------------------ C18 */

fn groups(level: usize) -> Vec<M> {
  let deep = level >= 1;
  const D: &[&[&str]] = &[
    &["t", "u"],
    &["t as x", "s.u as y"],
    &["s.t as t", "u"],
    &["t", "s.t as x"],
    &["t as u", "u as t"],
    &["public.t as \"x\"", "q.u"],
    &["s.t", "q.t"],
    &["t as x", "s.x"],
    &["\"t\"", "s.\"t\" as S"],
    &["t"],
    &[],
    &["s.u as u", "s.t as t", "q.u as x"],
  ];
  const I: &[&str] = &["t", "u", "x", "y", "s.t", "s.u", "public.t", "public.u", "\"t\"", "\"public\".\"t\"", "T", "q.u", "public.x", "s.x", "q.t", "\"x\"", "s.\"t\"", "S", "z"];
  fn decl(d: &[&str]) -> String {
    d.iter().map(|d| format!("Table {d} {{ a int }}\n")).collect()
  }
  vec![
    m("C18", "items", "table declarations x up to 2 items in every spelling, group before or after the tables", 0, |ch| {
      let d = decl(ch.of(D));
      let n = ch.free(3);
      let items: Vec<_> = (0..n).map(|_| *ch.of(I)).collect();
      let g = format!("TableGroup g {{ {} }}\n", items.join("\n"));
      Some(if ch.flag() { format!("{P}{g}{d}") } else { format!("{P}{d}{g}") })
    }),
    m("C18", "three-items", "table declarations x three items over main spellings", 0, move |ch| {
      let d = decl(ch.of(if deep { D } else { &D[..6] }));
      let items: Vec<_> = (0..3).map(|_| *ch.of(if deep { &I[..14] } else { &I[..10] })).collect();
      Some(format!("{P}{d}TableGroup g {{ {} }}\n", items.join("\n")))
    }),
    m("C18", "two-groups", "two groups share tables; notes and settings in between; enums are not tables", 0, |ch| {
      let d = decl(ch.of(D));
      let mut t = format!("{P}{d}Enum t {{ a }}\nEnum s.z {{ a }}\nEnum z {{ x }}\n");
      for g in ["g", "\"g 2\""] {
        let n = ch.free(3);
        let items: Vec<_> = (0..n).map(|_| *ch.of(&["t", "u", "x", "s.t", "public.t", "z"])).collect();
        t += &format!("TableGroup {g} [note: 't'] {{ {} Note: 't' }}\n", items.join("\n"));
      }
      Some(t)
    }),
    m("C18", "scale", "a group of n items over n tables in several schemas, the j-th naming the i-th's table again, or none", 0, move |ch| {
      let n = size(ch, 2, if deep { 15 } else { 9 }, level);
      let j = at(ch, n);
      let i = at(ch, n + 1);
      let form = ch.free(4);
      let sch = |k: usize| ["", "s.", "public."][k % 3];
      let tab: String = (0..n).map(|k| format!("Table {}t{k} as l{k} {{ }}\n", sch(k))).collect();
      let item = |k: usize, f: usize| if f == 0 { format!("l{k}\n") } else { format!("{}t{k}\n", sch(k)) };
      let g: String = (0..n).map(|k| if k == j { item(i, form / 2) } else { item(k, form % 2) }).collect();
      Some(format!("{P}TableGroup g {{ {g} }}\n{tab}"))
    }),
  ]
}

/* ------------------------------------------------------------------ wide elements: where in a long list the difference is */

/// 0..n under a rearrangement
fn rearranged(n: usize, how: usize, i: usize) -> Vec<usize> {
  let mut v: Vec<usize> = (0..n).collect();
  match how {
    0 => (),
    1 => v.reverse(),
    2 => v.rotate_left(i % n.max(1)),
    _ => v.swap(i, (i + 1) % n),
  }
  v
}

fn wide(level: usize) -> Vec<M> {
  let max = [4, 9, 16][level];
  let long: Vec<usize> = match level {
    0 => vec![9, 64, 256],
    1 => vec![7, 8, 9, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 1000, 4096, 65535, 65536],
    _ => (6..300).chain([511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 100000]).collect(),
  };
  vec![
    m("C12", "wide", "two definitions over n columns, the second rearranged, and its i-th column kept, replaced by another or by an expression, or left out; kinds of both", 0, move |ch| {
      let n = 2 + ch.free(max - 1);
      let (how, i) = (ch.free(4), ch.free(n));
      let kinds = ["", " [unique]", " [type: gin]", " [pk]"];
      let k1 = *ch.of(&kinds[..3]);
      let k2 = *ch.of(&kinds);
      let item = |k: &usize| format!("c{k}");
      let mut b: Vec<String> = rearranged(n, how, i).iter().map(item).collect();
      match ch.free(4) {
        0 => (),
        1 => b[i] = "z".into(),
        2 => b[i] = format!("`{}`", b[i]),
        _ => {
          b.remove(i);
        }
      }
      let a = (0..n).map(|k| item(&k)).collect::<Vec<_>>().join(", ");
      let cols: String = (0..n).map(|k| format!("c{k} int\n")).collect();
      Some(format!("{P}Table t {{ {cols} z int\nindexes {{ ({a}){k1}\nz\n({}){k2} }} }}", b.join(", ")))
    }),
    m("C13", "long-strings", "char, varchar, bit and varbit of great lengths, strings one shorter, equal and one longer, of characters of 1 to 4 bytes", 0, move |ch| {
      let t = *ch.of(&["char", "character varying", "bit", "varbit"]);
      let n = *ch.of(&long);
      let k = n - 1 + ch.free(3);
      let c = *ch.of(&["a", "é", "日", "😀"]);
      // the other characters may be plain
      let s = match ch.free(3) {
        0 => c.repeat(k),
        1 => format!("{}{c}", "x".repeat(k - 1)),
        _ => format!("{c}{}", "x".repeat(k - 1)),
      };
      Some(format!("{P}Table t {{ a {} [default: '{s}'] }}", spelt(t, &format!("({n})"))))
    }),
    m("C13", "scale", "n columns over one or two tables, all but the i-th well-typed; the i-th of each kind", 0, move |ch| {
      let n = size(ch, 1, [4, 9, 20][level], level);
      let i = at(ch, n);
      let odd = ch.of(&[
        "int [default: 5]",
        "smallint [default: 32768]",
        "int [default: 2147483648]",
        "char(2) [default: 'a']",
        "varchar(1) [default: 'ab']",
        "varchar(1, 2)",
        "int(4)",
        "decimal(3)",
        "decimal(3, 1.5)",
        "int [default: true]",
        "int [default: null]",
        "int [null, default: null]",
      ]);
      let good = ["int", "smallint [default: 32767]", "varchar(3) [default: 'abc']", "bool [default: false]", "decimal(3, 1)", "text [null, default: null]"];
      let split = ch.free(2) == 1;
      let cols: String = (0..n).map(|k| format!("c{k} {}\n{}", if k == i { odd } else { good[k % 6] }, if split && k == n / 2 { "}\nTable u { z int\n" } else { "" })).collect();
      Some(format!("{P}Table t {{ {cols} }}"))
    }),
    m("C16", "scale", "n relationships in each notation, all but the i-th fitting; the i-th of each kind", 0, move |ch| {
      let n = size(ch, 1, [4, 9, 20][level], level);
      let i = at(ch, n);
      let odd = ch.free(7);
      let how = ch.free(3);
      let (mut t, mut u, mut r) = (String::new(), String::new(), String::new());
      for k in 0..n {
        let o = if k == i { odd } else { 0 };
        let key = if o == 1 { "" } else { "unique" };
        let ty = ["int", "int", "bigint", "int[]", "int[3]", "varchar(2)", "e"][o];
        u += &format!("d{k} {ty} [{key}]\n");
        t += &format!("c{k} int [{}]\n", if how == 0 { format!("ref: > u.d{k}") } else { String::new() });
        r += &match how {
          0 => String::new(),
          1 => format!("Ref: t.c{k} > u.d{k}\n"),
          _ => format!("Ref: u.d{k} < t.c{k}\n"),
        };
      }
      Some(format!("{P}{r}Table t {{ {t} }}\nTable u {{ {u} }}\nEnum e {{ v }}"))
    }),
    m("C15", "wide", "endpoints of n columns, the i-th of one side undeclared, or declared in the other table only", 0, move |ch| {
      let n = 1 + ch.free(max);
      let (i, side, odd) = (ch.free(n), ch.free(2), ch.free(4));
      let how = ch.free(3);
      let list = |s: usize| {
        rearranged(n, how, i).iter().map(|k| if *k == i && s == side && odd > 0 { ["", "z", "only0", "only1"][odd].to_string() } else { format!("c{k}") }).collect::<Vec<_>>().join(", ")
      };
      let cols: String = (0..n).map(|k| format!("c{k} int\n")).collect();
      Some(format!("{P}Table t {{ {cols}only0 int\nindexes {{ ({0}) [pk] }} }}\nTable s.u as x {{ {cols}only1 int\nindexes {{ ({0}) [pk] }} }}\nRef: t.({1}) - x.({2})", (0..n).map(|k| format!("c{k}")).collect::<Vec<_>>().join(", "), list(0), list(1)))
    }),
    m("C16", "wide", "endpoints of n columns, the i-th pair of different types, arguments or dimensions, or one column more on one side; each relation", 0, move |ch| {
      let n = 1 + ch.free(max);
      let i = ch.free(n);
      let odd = *ch.of(&["int", "integer", "bigint", "int[]", "varchar(3)", "e", "s.e"]);
      let how = ch.free(3);
      let rel = *ch.of(&["<", ">", "-", "<>"]);
      let more = ch.free(3);
      let cols: String = (0..n).map(|k| format!("c{k} int\n")).collect();
      let cols2: String = (0..n).map(|k| format!("c{k} {}\n", if k == i { odd } else { "int" })).collect();
      let all = (0..n).map(|k| format!("c{k}")).collect::<Vec<_>>().join(", ");
      let list = |extra: bool| rearranged(n, how, i).iter().map(|k| format!("c{k}")).chain(extra.then(|| "z".to_string())).collect::<Vec<_>>().join(", ");
      Some(format!("{P}Table t {{ {cols}z int\nindexes {{ ({all}) [pk] }} }}\nTable u {{ {cols2}z int\nindexes {{ ({all}) [unique] }} }}\nRef: t.({}) {rel} u.({})\nEnum e {{ v }}\nEnum s.e {{ v }}", list(more == 1), list(more == 2)))
    }),
    m("C17", "wide", "two relationships of n columns, the second rearranged, and with its i-th column kept, replaced or left out; relations and spellings of both", 0, move |ch| {
      let n = 1 + ch.free(max);
      let (how, i) = (ch.free(4), ch.free(n));
      let r1 = *ch.of(&[">", "-", "<>"]);
      let r2 = *ch.of(&[">", "<", "-", "<>"]);
      let odd = ch.free(3);
      let mut b: Vec<String> = rearranged(n, how, i).iter().map(|k| format!("c{k}")).collect();
      match odd {
        0 => (),
        1 => b[i] = "z".into(),
        _ => {
          if n < 3 {
            return None;
          }
          b.remove(i);
        }
      }
      let cols: String = (0..n).map(|k| format!("c{k} int\n")).collect();
      let all = (0..n).map(|k| format!("c{k}")).collect::<Vec<_>>().join(", ");
      let b = b.join(", ");
      let (l, r) = if r2 == "<" { ("u", "x") } else { ("x", "u") };
      let keys = |x: &str| if x == all { format!("indexes {{ ({x}) [pk] }}") } else { format!("indexes {{ ({x}) [unique] ({all}) [pk] }}") };
      let mut both: std::collections::BTreeSet<&str> = all.split(", ").collect();
      let same = both.len() == b.split(", ").filter(|x| both.remove(x)).count() && both.is_empty();
      let ix = if same { format!("indexes {{ ({all}) [pk] }}") } else { keys(&b) };
      Some(format!("{P}Table t as x {{ {cols}z int\n{ix} }}\nTable u {{ {cols}z int\n{ix} }}\nRef: t.({all}) {r1} u.({all})\nRef: {l}.({b}) {r2} {r}.({b})"))
    }),
  ]
}

/* ------------------------------------------------------------------ names that contain separators */

/// Names such that joining the parts of one gives the same text as joining the parts of another.
fn separators(level: usize) -> Vec<M> {
  const SEP: &[&str] = &[".", ",", ", ", " ", "", "_", "-", ":", "::", ";", "|", "/", "\0", "\u{1f}", "'", "`", "(", ") (", "\n", "\t", "\\", "=", "#", "$", "@", "&", "+", "->", "\u{a0}", "é"];
  let sep = &SEP[..[3, SEP.len(), SEP.len()][level]];
  /// two lists of columns (and expressions) over the columns below
  const LISTS: &[(&str, &str)] = &[
    ("a, b", "\"a@b\""),
    ("\"a@b\", c", "a, \"b@c\""),
    ("\"a@b\", c", "a, b, c"),
    ("a, b, c", "\"a@b@c\""),
    ("a, \"@b\"", "\"a@\", b"),
    ("a, b", "a, \"@b\""),
    ("a, b", "b, a"),
    ("\"a@b\"", "\"b@a\""),
    ("a, `b`", "`a@b`"),
    ("`a`, `b`", "`a@b`"),
    ("a, b", "`a@b`"),
    ("\"a@b\"", "`a@b`"),
    ("\"`a`\"", "`a`"),
  ];
  const COLS: &str = "a int\nb int\nc int\n\"a@b\" int\n\"b@c\" int\n\"a@b@c\" int\n\"@b\" int\n\"a@\" int\n\"b@a\" int\n\"`a`\" int\n";
  vec![
    m("C10", "separators", "tables, enums, aliases and members with quoted names that contain separators, next to what they look like", 0, move |ch| {
      let s = ch.of(sep);
      let what = *ch.of(&["Table", "Enum"]);
      let t = match ch.free(9) {
        0 => format!("{what} \"a@b\".c {{ }}\n{what} a.\"b@c\" {{ }}"),
        1 => format!("{what} \"a@b\" {{ }}\n{what} a.b {{ }}"),
        2 => format!("{what} \"public@t\" {{ }}\n{what} t {{ }}\n{what} public.\"@t\" {{ }}"),
        3 => format!("{what} \"a@b\".\"\" {{ }}\n{what} a.b {{ }}\n{what} a.\"b@\" {{ }}\n{what} \"\".\"a@b\" {{ }}"),
        4 => "Table t as \"a@b\" { }\nTable a.b { }\nTable u as a { }".to_string(),
        5 => "Table a.b as \"a@b\" { \"a@b\" int a int b int }\nTable \"a@b\" { a int \"a@b\" int }".to_string(),
        6 => "Enum e { \"a@b\" a b \"b@a\" }".to_string(),
        7 => "TableGroup \"a@b\" { }\nTableGroup a { }\nTableGroup b { }\nTable \"a@b\" { }".to_string(),
        _ => format!("{what} \"a@b\" {{ }}\n{what} \"a@b\" {{ }}"),
      };
      Some(P.to_string() + &t.replace('@', s))
    }),
    m("C12", "separators", "two index definitions whose columns and expressions, joined, are the same text", 0, move |ch| {
      let s = ch.of(sep);
      let (a, b) = *ch.of(LISTS);
      let (a, b) = if ch.flag() { (a, b) } else { (b, a) };
      let k = ch.of(&["", "[unique]", "[type: btree]", "[note: 'n']"]);
      let c = if ch.flag() { COLS.replace("\"a@b\" int", "\"a@b\" int [unique]") } else { COLS.into() };
      Some(format!("{P}Table t {{ {c}indexes {{ ({a}) {k}\n({b}) {k} }} }}").replace('@', s))
    }),
    m("C14", "separators", "enums and values with names that contain separators, defaults that look like them", 0, move |ch| {
      let s = ch.of(sep);
      let v = *ch.of(&["\"a@b\"", "a b", "a \"@b\"", "\"a@\" b", "a"]);
      let d = *ch.of(&["a", "b", "'a@b'", "'@b'", "'b@a'", "\"a@b\"", "'a'"]);
      let (decl, ty) = *ch.of(&[("\"x@y\".e", "\"x@y\".e"), ("x.e", "\"x@y\".e"), ("y.e", "\"x@y\".e"), ("\"x@y\".e", "y.e"), ("e", "\"@\".e"), ("e", "\"public@\".e"), ("\"public@\".e", "e"), ("x.\"y@e\"", "\"x@y\".e")]);
      Some(format!("{P}Table t {{ k {ty} [default: {d}] }}\nEnum {decl} {{ {v} }}\nEnum x.f {{ a }}").replace('@', s))
    }),
    m("C15", "separators", "endpoints of declared and undeclared tables and columns that look alike when joined", 0, move |ch| {
      let s = ch.of(sep);
      const T: &[&str] = &["\"a@b\".c", "a.\"b@c\"", "a.b", "\"a@b\"", "b", "\"@b\"", "public.\"a@b\"", "\"a@\".b"];
      let decl = ch.of(T);
      let used = ch.of(T);
      let alias = ch.of(&["", " as \"a@b\"", " as z"]);
      let (c, e) = *ch.of(&[("k int [pk] l int", "k"), ("\"k@l\" int [pk]", "(k, l)"), ("k int l int indexes { (k, l) [pk] }", "\"k@l\""), ("\"k@l\" int [pk]", "\"k@l\"")]);
      let o = if e.starts_with('(') { "(o, p)" } else { "o" };
      Some(format!("{P}Table {decl}{alias} {{ {c} }}\nTable o {{ o int p int }}\nRef: o.{o} > {used}.{e}").replace('@', s))
    }),
    m("C16", "separators", "endpoints and keys whose columns, joined, are the same text; enum types of schemas that look alike", 0, move |ch| {
      let s = ch.of(sep);
      let k = *ch.of(&["pk", "unique"]);
      if ch.flag() {
        const E: &[&str] = &["\"x@y\".e", "x.e", "y.e", "e", "\"public@\".e", "\"x@\".e", "public.e"];
        let (a, b) = (ch.of(E), ch.of(E));
        return Some(format!("{P}Table t {{ k {a} [{k}] }}\nTable u {{ k {b} }}\nRef: u.k > t.k").replace('@', s));
      }
      let (a, b) = *ch.of(LISTS);
      let (a, b) = if ch.flag() { (a, b) } else { (b, a) };
      let n = b.split(", ").count();
      let r = ["o", "p", "q"][..n].join(", ");
      Some(format!("{P}Table t {{ {COLS}indexes {{ ({a}) [{k}] }} }}\nTable o {{ o int p int q int }}\nRef: o.({r}) > t.({b})").replace('@', s))
    }),
    m("C17", "separators", "two relationships whose endpoints, joined, are the same text", 0, move |ch| {
      let s = ch.of(sep);
      let (r1, r2) = *ch.of(&[(">", ">"), ("<", ">"), ("-", "-"), ("<>", "<>"), ("-", "<>"), (">", "-")]);
      let keys = LISTS[..8].iter().flat_map(|l| [l.0, l.1]).collect::<std::collections::BTreeSet<_>>();
      let keys: String = keys.iter().filter(|k| !k.starts_with("b, a") && !k.starts_with('`')).map(|k| format!("({k}) [unique]\n")).collect();
      let k = format!("k int [unique] l int [unique] m int [unique] indexes {{ (k, l) [unique] (k, l, m) [unique] }}");
      let one = |r: &str, l: &str, x: &str| if r == "<" { format!("Ref: {x} < {l}\n") } else { format!("Ref: {l} {r} {x}\n") };
      let key = |l: &str| format!("k.({})", ["k", "l", "m"][..l.split(", ").count()].join(", "));
      let t = match ch.free(3) {
        0 => {
          let (a, b) = *ch.of(&LISTS[..8]);
          format!("Table t {{ {COLS}indexes {{ {keys} }} }}\n{}{}", one(r1, &format!("t.({a})"), &key(a)), one(r2, &format!("t.({b})"), &key(b)))
        }
        1 => {
          const T: &[(&str, &str)] = &[("\"a@b\".c", "a.\"b@c\""), ("\"a@b\"", "a.b"), ("\"public@t\"", "t"), ("\"a@b\".\"\"", "a.\"b@\""), ("a.b", "b"), ("\"a@\".b", "a.\"@b\"")];
          let (a, b) = *ch.of(T);
          format!("Table {a} {{ x int [unique] }}\nTable {b} {{ x int [unique] }}\n{}{}", one(r1, &format!("{a}.x"), "k.k"), one(r2, &format!("{b}.x"), "k.k"))
        }
        _ => {
          // the separator between table and column
          let (a, b) = *ch.of(&[("\"t@a\".b", "t.\"a@b\""), ("\"t@\".b", "t.\"@b\""), ("s.t.\"a@b\"", "\"s@t\".\"a@b\""), ("s.\"t@a\".b", "s.t.\"a@b\"")]);
          let (ta, ca) = a.rsplit_once('.')?;
          let (tb, cb) = b.rsplit_once('.')?;
          format!("Table {ta} {{ {ca} int [unique] }}\nTable {tb} {{ {cb} int [unique] }}\n{}{}", one(r1, a, "k.k"), one(r2, b, "k.k"))
        }
      };
      Some(format!("{P}Table k {{ {k} }}\n{t}").replace('@', s))
    }),
    m("C18", "separators", "groups of tables whose names, joined, are the same text; items that look like a table or alias", 0, move |ch| {
      let s = ch.of(sep);
      const T: &[&str] = &["\"a@b\".c", "a.\"b@c\"", "a.b", "\"a@b\"", "\"public@b\"", "b", "\"@b\""];
      let (a, b) = (ch.of(T), ch.of(T));
      let (x, y) = (ch.of(T), ch.of(T));
      let alias = ch.of(&["", " as \"a@b\"", " as \"a@b@c\""]);
      if a == b && level < 2 {
        return None;
      }
      Some(format!("{P}Table {a} {{ }}\nTable {b}{alias} {{ }}\nTableGroup g {{ {x} {y} }}").replace('@', s))
    }),
  ]
}

/* ------------------------------------------------------------------ names that are long, in characters of several bytes */

/// one name or text of the document stretched by multi-byte characters, wherever it occurs
pub fn stretched(deep: bool) -> M {
  let mut docs: Vec<(String, usize)> = BAD.iter().map(|b| (format!("{FRAME}{b}"), FRAME.len())).collect();
  docs.extend(crate::gen::valid_docs().iter().chain(&crate::gen::small_docs()).map(|d| (d.to_string(), 0)));
  m("C19", "stretched", "each violation and small document, with each name or text made long by characters of 2 to 4 bytes, in front or behind, at each alignment", 0, move |ch| {
    let (d, from) = ch.of(&docs);
    let bare = |t: &str| t.trim_matches(|c| c == '"' || c == '\'').to_string();
    let wordy = |t: &str| t.starts_with(|c: char| c == '"' || c == '\'' || c.is_ascii_alphabetic());
    // tokens and gaps, with their places
    let mut at = 0;
    let mut placed = vec![];
    for t in super::c02::lex(d) {
      at += t.len();
      placed.push((at - t.len(), t));
    }
    let mut names: Vec<String> = placed.iter().filter(|(i, t)| i >= from && wordy(t)).map(|x| bare(&x.1)).collect();
    names.sort();
    names.dedup();
    if names.is_empty() {
      return None;
    }
    let name = ch.of(&names).clone();
    let c = *ch.of(if deep { &["é", "日", "😀"][..] } else { &["é", "😀"] });
    let k = *ch.of(if deep { &[1, 2, 4, 7, 15, 31, 64, 150, 1000][..] } else { &[1, 4, 15, 150] });
    let p = ch.free(c.len());
    let long = if ch.flag() { format!("{}{}{name}", "x".repeat(p), c.repeat(k)) } else { format!("{name}{}{}", c.repeat(k), "x".repeat(p)) };
    let mut out = String::new();
    for (_, t) in &placed {
      if !wordy(t) || bare(t) != name {
        out += t;
      } else {
        let q = if t.starts_with("'''") { "'''" } else if t.starts_with('\'') { "'" } else { "\"" };
        out += &format!("{q}{long}{q}");
      }
    }
    Some(out)
  })
}

/* ------------------------------------------------------------------ C19 */

/// (fragment, needs the frame's tables) each breaking exactly one rule in the frame
pub const BAD: &[&str] = &[
  "Table f { a int [pk] b int [pk] }",
  "Table f { a int [primary key] indexes { (a) [pk] } }",
  "Table f { a int [pk, null] }",
  "Table f { a int[] [pk] }",
  "Table f { a int [null, not null] }",
  "Table f { a int a text }",
  "Table f { a int [note: 'é', note: 'ü'] }",
  "Table f { a int indexes { () } }",
  "Table f { a int indexes { (a, \"é\") } }",
  "Table f { a int indexes { (a, z) } }",
  "Table f { a int indexes { a [pk, unique] } }",
  "Table f { a int indexes { a [type: hash, unique] } }",
  "Table f { a int [unique] indexes { a [unique] } }",
  "Table f { a int b int indexes { (a, b) [unique] (b, a) [unique, name: 'é'] } }",
  "Table f { a int indexes { a a } }",
  "Table f { a int indexes { `x` [type: gin] `x` [type: gin] } }",
  "Table f { a int indexes { a [name: 'a', name: 'b'] } }",
  "Table f { a int(1) }",
  "Table f { a varchar(1,2) }",
  "Table f { a \"character varying(1,2)\" }",
  "Table f { a numeric(1) }",
  "Table f { a varchar('é') }",
  "Table f { a decimal(1,true) }",
  "Table f { a varchar(2) [note: 'é', default: 'ééé'] }",
  "Table f { a char(4)  [default: 'ééé'] }",
  "Table f { a bit(2) [default: '1'] }",
  "Table f { a int2 [default: 32768] }",
  "Table f { a \"int4\" [default: 2147483648] }",
  "Table f { a text [default: true] }",
  "Table f { a varchar(7)[] [default: false] }",
  "Table f { a text [default: null] }",
  "Table f { a text [not null, default: null] }",
  "Table f { a e [default: zz] }",
  "Table f { a s.e [default: 'é'] }",
  "Table f { a nope [default: a] }",
  "Table f { a s.nope [default: a] }",
  "Table f { a qq.e [default: a] }",
  "Table f [k: 1, k] { }",
  "Table t { }",
  "Table public.t { }",
  "Table s.\"u\" { }",
  "Table f as x { }",
  "Table f { a int [ref: > nope.a] }",
  "Table f { a int [ref: > qq.t.a] }",
  "Table f { a int [ref: > s.t.a] }",
  "Table f { a int [ref: > t.zz] }",
  "Table f { a int [ref: > x.zz] }",
  "Table f { a int [ref: > s.u.zz] }",
  "Table f { a int [ref: > t.(a, b)] }",
  "Table f { a int [ref: > s.u.(a, b)] }",
  "Table f { a int indexes { () [unique] } }",
  "Table f { a text [ref: > t.a] }",
  "Table f { a varchar(2) [ref: > s.u.v] }",
  "Table f { a int [ref: > t.n] }",
  "Table f { a int [ref: - t.n] }",
  "Table f { a int [ref: < t.n] }",
  "Table f { a int [unique, ref: <> t.n] }",
  "Ref: nope.a > t.a",
  "Ref: t.n > nope.a",
  "Ref: t.n > s.nope.a",
  "Ref: t.n > q.t.a",
  "Ref: t.n > t.\"é\"",
  "Ref: t.zz > t.a",
  "Ref r { t.n > x.zz }",
  "Ref: t.(n, zz) > s.u.(a, b)",
  "Ref: t.(n, m) > s.u.(a, zz)",
  "Ref: t.(n, m) > t.a",
  "Ref: t.n > s.u.v",
  "Ref: t.(n, n2) > s.u.(a, v)",
  "Ref: t.n > t.m",
  "Ref: t.n < t.m",
  "Ref { t.n - t.m }",
  "Ref: t.n <> t.a",
  "Ref: t.a <> t.n",
  "Ref: t.(n, m) > t.(m, n)",
  "Ref: t.(n, m) < s.u.(a, b)",
  "Ref: t.(n, m) - t.(m, n2)",
  "Ref: t.(n, m) <> s.u.(a, b)",
  "Ref: t.n > t.a [delete: cascade, delete: restrict]",
  "Ref: t.n > t.a\nRef: x.n > s.u.a",
  "Ref: t.n > t.a\nRef: s.u.a < public.t.n",
  "Ref: t.a - s.u.a\nRef { y.a - x.a }",
  "Ref: t.a <> s.u.a\nRef: t.a <> s.u.a",
  "Ref: t.(n, m) > s.u.(a, b)\nRef: t.(m, n) > s.u.(b, a)",
  "Enum e { }",
  "Enum s.e { }",
  "Enum f { a b a }",
  "Enum f { a [note: 'x', note: 'y'] }",
  "TableGroup g { }",
  "TableGroup f { nope }",
  "TableGroup f { s.t }",
  "TableGroup f { qq.t }",
  "TableGroup f { t x }",
  "TableGroup f { s.u t y }",
  "TableGroup f { t public.t }",
  "TableGroup f [a: 1, a: 2] { t }",
  "Project q { }",
];

pub const FRAME: &str = "Project p { Note: 'é' }\nTable t as x { a int [pk] n int m int n2 int }\nTable s.u as y { a int [unique] b int\n v varchar(3) [unique] indexes { (a, b) [pk] (a, v) [unique] } }\nEnum e { on }\nEnum s.e { on }\nTableGroup g { t }\n";

fn catalogue(deep: bool) -> Vec<M> {
  vec![
    stretched(deep),
    m("C19", "singles", "each of the violations alone, at the end and at the start of a valid multi-byte frame, in three layouts", 0, |ch| {
      let b = ch.of(BAD);
      let pad = ch.of(&["", "// é😀\n", "\r\n\t /* 日本 */ "]);
      let b = if pad.is_empty() { b.to_string() } else { b.replace(' ', &format!(" {pad}")) };
      refparse::parse(&b)?; // padding would split a spaced word
      Some(if ch.flag() { format!("{b}\n{FRAME}") } else { format!("{FRAME}{pad}{b}") })
    }),
    m("C19", "property-keys", "a repeated project property", 0, |ch| {
      Some(format!("/* é */ Project p {{ {} }}", ch.of(&["a: 1 a: 2", "Note: 'é' b: 'ü'\n a: 1\n b: true", "a: x\nb: y\nc: 1\nc: 2\nb: 3"])))
    }),
    m("C19", "no-project", "a valid or invalid fragment with no project at all", 0, |ch| {
      let rest = FRAME.split_once('\n').unwrap().1;
      Some(match ch.free(3) {
        0 => rest.to_string(),
        1 => format!("\n // é\n{rest} \n"),
        _ => format!("{rest}{}", ch.of(BAD)),
      })
    }),
    m("C19", "pairs", "each ordered pair of violations in the frame: the message names one that is there", 0, move |ch| {
      let (a, b) = (ch.of(BAD), ch.of(BAD));
      let k = if deep { ch.free(2) } else { 0 };
      Some(if k == 0 { format!("{FRAME}{a}\n{}", b.replace(" f ", " h ")) } else { format!("{a}\n{FRAME}{}", b.replace(" f ", " h ")) })
    }),
  ]
}
