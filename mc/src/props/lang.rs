//! C03..C07: what the unchecked parser returns for accepted documents.
use super::c02::lex;
use super::util::*;
use crate::dump::{self, Sink};
use crate::explore::{Ch, Cx, Space};
use crate::gen::*;
use crate::mirror::*;
use crate::oracle::{self, against, Depth};
use crate::print::{self, Gap};
use crate::real::Res;
use crate::refparse;

/// Prints the document compactly and compares the real parse with it. The recogniser is held to the same.
fn declared(cx: &mut Cx, d: &mut Doc, depth: Depth) {
  let t = compact(d);
  if !cx.case(&t) {
    return;
  }
  models_agree(cx, &t, d);
  against(cx, &t, Some(d), depth);
}

/// Binds the two reference models to each other: printer and recogniser describe the same document.
fn models_agree(cx: &mut Cx, t: &str, d: &Doc) {
  let (mut a, mut b) = (Sink::new(), Sink::new());
  dump::mirror(&mut a, d);
  match refparse::parse(t) {
    Some(x) => {
      dump::mirror(&mut b, &x);
      if a.s != b.s {
        cx.fail(t, "ENGINE: printer and recogniser disagree");
      }
    }
    None => cx.fail(t, "ENGINE: the recogniser refuses what the printer printed"),
  }
}

fn text(cx: &mut Cx, t: &str, depth: Depth) {
  if cx.case(t) {
    oracle::syntax(cx, t, depth)
  }
}

/* ------------------------------------------------------------------ C03 */

fn num_block(kind: usize, i: usize) -> Top {
  let n = |p: &str| format!("{p}{i}");
  match kind {
    0 => Top::Table(table(if i % 2 == 0 { Some("s") } else { None }, &n("t"), vec![TItem::Col(col(&n("c"), int(), None))])),
    1 => Top::Enum(enum_(None, &n("e"), vec![ev(&n("v"), None)])),
    2 => Top::Ref(ref_(i % 2 == 0, Some(&n("r")), rid(None, &n("a"), &["b"]), Rel::ALL[i % 4], rid(Some("s"), "c", &[&n("d")]), None)),
    3 => Top::Group(group(&n("g"), None, vec![gi(None, &n("t"))])),
    4 => Top::Project(project(&n("p"), vec![prop(&n("k"), sq(&n("v")))])),
    _ => Top::Note(note(i % 2 == 0, sq(&n("n")))),
  }
}

/// documents whose parts were moved about
fn reruns(depth: Depth, deep: bool) -> Space {
  let toks: Vec<Vec<String>> = small_docs().iter().chain(&valid_docs()).map(|d| units(d)).collect();
  Space::new("runs", "every document with every run of up to 6 (thorough: 12) tokens deleted, or copied or moved to every other place, plainly or behind a comma", 0, move |ch, cx| {
    let t = rerun(ch, &toks, if deep { 12 } else { 6 });
    text(cx, &t, depth)
  })
}

pub fn c03(deep: bool) -> Vec<Space> {
  let mut v = vec![
    Space::new("one-block", "one block of any kind: every combination of up to 3 (thorough: 4) deviations of identifiers, optional parts, counts, settings, types, values", if deep { 4 } else { 3 }, |ch, cx| {
      let mut d = document(ch, 1);
      declared(cx, &mut d, Depth::Skeleton)
    }),
    Space::new("two-blocks", "one or two blocks of any kinds, up to 2 (thorough: 3) deviations", if deep { 3 } else { 2 }, |ch, cx| {
      let mut d = document(ch, 2);
      declared(cx, &mut d, Depth::Skeleton)
    }),
    Space::new("three-blocks", "up to three blocks of any kinds, 1 (thorough: 2) deviations", if deep { 2 } else { 1 }, |ch, cx| {
      let mut d = document(ch, 3);
      declared(cx, &mut d, Depth::Skeleton)
    }),
    Space::new("kinds", "every sequence of up to 5 (thorough: 6) blocks of the six kinds", 0, move |ch, cx| {
      let n = ch.free(if deep { 7 } else { 6 });
      let mut d = doc((0..n).map(|i| num_block(ch.free(6), i)).collect());
      declared(cx, &mut d, Depth::Skeleton)
    }),
    Space::new("table-bodies", "every sequence of up to 5 items {column, column with settings, note, note block, indexes, empty indexes, keyword-like column} in a table", 0, move |ch, cx| {
      let n = ch.free(if deep { 7 } else { 6 });
      let mut b = vec![];
      for i in 0..n {
        b.push(match ch.free(8) {
          0 => TItem::Col(col(&format!("c{i}"), int(), None)),
          1 => TItem::Col(col(&format!("\"d {i}\""), ty("varchar(5)", None, "varchar", vec![Val::Int(5)], vec![]), settings(vec![attr("pk", None), attr("note", Some(sq(&format!("n{i}"))))]))),
          2 => TItem::Note(note(false, sq(&format!("a{i}")))),
          3 => TItem::Note(note(true, tq(&format!("b{i}")))),
          4 => indexes(vec![idx(vec![ic(&format!("x{i}"))], None), idx(vec![ie("f"), ic("y")], settings(vec![attr("pk", None)]))]),
          5 => indexes(vec![]),
          6 => TItem::Col(col("Note", int(), None)),
          _ => TItem::Col(col("indexes", ty("s.e[]", Some("s"), "e", vec![], vec![None]), settings(vec![]))),
        })
      }
      let mut d = doc(vec![Top::Table(table(None, "t", b))]);
      declared(cx, &mut d, Depth::Skeleton)
    }),
    Space::new("other-bodies", "every sequence of up to 6 items in a project, a group and an enum", 0, move |ch, cx| {
      let kind = ch.free(3);
      let n = ch.free(7);
      let mut items = vec![];
      for _ in 0..n {
        items.push(ch.free(4));
      }
      let b = match kind {
        0 => Top::Project(project(
          "p",
          items
            .iter()
            .enumerate()
            .map(|(i, k)| match k {
              0 => PItem::Note(note(false, sq(&format!("a{i}")))),
              1 => PItem::Note(note(true, tq(&format!("b{i}")))),
              2 => prop(&format!("k{i}"), lit("1", Val::Int(1))),
              _ => prop(&format!("a b{i}"), bare("two words")),
            })
            .collect(),
        )),
        1 => Top::Group(group(
          "g",
          None,
          items
            .iter()
            .enumerate()
            .map(|(i, k)| match k {
              0 => GItem::Note(note(false, sq(&format!("a{i}")))),
              1 => GItem::Note(note(true, tq(&format!("b{i}")))),
              2 => gi(None, &format!("t{i}")),
              _ => gi(Some("\"s\""), &format!("\"t {i}\"")),
            })
            .collect(),
        )),
        _ => Top::Enum(enum_(
          Some("s"),
          "e",
          items
            .iter()
            .enumerate()
            .map(|(i, k)| match k {
              0 => ev(&format!("v{i}"), None),
              1 => ev(&format!("\"v {i}\""), settings(vec![])),
              2 => ev("Note", settings(vec![attr("note", Some(sq(&format!("n{i}"))))])),
              _ => ev("same", settings(vec![attr("x", None), attr("y", Some(bare("z")))])),
            })
            .collect(),
        )),
      };
      let mut d = doc(vec![b]);
      declared(cx, &mut d, Depth::Skeleton)
    }),
    Space::new("headers", "every spelling of schema, name and alias of a table and an enum, all triples of identifiers from a menu of 16", 0, move |ch, cx| {
      let ids = &IDS[..if deep { IDS.len() } else { 16 }];
      let s = ch.free(ids.len() + 1);
      let (n, a) = (*ch.of(ids), ch.free(ids.len() + 1));
      let schema = (s > 0).then(|| ids[s - 1]);
      let mut t = table(schema, n, vec![]);
      if a > 0 {
        t.alias = Some(id(ids[a - 1]));
      }
      let mut d = doc(vec![Top::Table(t), Top::Enum(enum_(schema, n, vec![ev(if a > 0 { ids[a - 1] } else { "v" }, None)])), Top::Group(group(n, None, vec![gi(schema, n)]))]);
      declared(cx, &mut d, Depth::Skeleton)
    }),
    Space::new("refs", "every notation x name x left endpoint form x relation x right endpoint form x settings", 0, |ch, cx| {
      let forms: Vec<RefIdent> = {
        let mut v = vec![];
        for s in [None, Some("s"), Some("\"s p\"")] {
          for t in ["t", "\"t u\""] {
            for c in [&["a"][..], &["\"a b\""], &["a", "b"], &["b", "\"a\"", "c"], &["a", "a"]] {
              v.push(rid(s, t, c));
            }
            let mut p = rid(s, t, &["a"]);
            p.paren = true;
            v.push(p);
          }
        }
        v
      };
      let (l, rel, r) = (ch.of(&forms).clone(), *ch.of(&Rel::ALL), ch.of(&forms).clone());
      let how = ch.free(3);
      let d = if how == 2 {
        doc(vec![Top::Table(table(None, "x", vec![TItem::Col(col("c", int(), settings(vec![iref(rel, l), attr("pk", None), iref(rel.mirror(), r)])))]))])
      } else {
        let name = *ch.of(&[None, Some("n"), Some("\"n m\"")]);
        let set = match ch.free(4) {
          0 => None,
          1 => settings(vec![]),
          2 => settings(vec![attr("delete", Some(bare("set null")))]),
          _ => settings(vec![attr("update", Some(bare("cascade"))), attr("color", Some(lit("#fff", Val::Hex("#fff".into()))))]),
        };
        doc(vec![Top::Ref(ref_(how == 0, name, l, rel, r, set))])
      };
      let mut d = d;
      declared(cx, &mut d, Depth::Skeleton)
    }),
    Space::new("types", "every schema x base name x quoting x argument list x up to 3 array dimensions inside and outside the quotes", 0, |ch, cx| {
      let schema = *ch.of(&["", "s", "\"s p\"", "\"x.y\""]);
      let quoted = ch.flag();
      let base = *ch.of(if quoted { &["int", "my type", "a1_ b2", "Note"] } else { &["int", "Foo_9", "note", "ref"] });
      let args = *ch.of(&["", "()", "(0)", "(1,2)", "('a b')", "(`e`,#abc,1.5)", "(null,true,false)"]);
      let arr = |ch: &mut Ch, n: usize| -> String { (0..ch.free(n)).map(|_| *ch.of(&["[]", "[0]", "[12]"])).collect() };
      let t = if quoted {
        let inner = arr(ch, 3);
        let outer = arr(ch, 3);
        format!("\"{base}{args}{inner}\"{outer}")
      } else {
        format!("{base}{args}{}", arr(ch, 4))
      };
      let dot = if schema.is_empty() { "" } else { "." };
      let set = ch.of(&["", " [pk]", " []"]);
      text(cx, &format!("Table t {{ a {schema}{dot}{t}{set}\nb {t} }}"), Depth::Skeleton)
    }),
    Space::new("index-columns", "every list of up to 4 index columns over {plain, quoted, keyword-like, expression, empty expression} x settings, twice", 0, move |ch, cx| {
      let menu = [ic("a"), ic("\"b c\""), ie("f(x)"), ie(""), ic("Note"), ie("a, b")];
      let n = ch.free(5);
      let mut one = |n: usize| {
        let mut d = idx((0..n).map(|_| ch.of(&menu).clone()).collect(), None);
        d.multi = n != 1 || ch.flag();
        if ch.flag() {
          d.settings = settings(vec![attr("name", Some(sq("x"))), attr("unique", None)]);
        }
        d
      };
      let a = one(n);
      let b = one(1);
      let mut d = doc(vec![Top::Table(table(None, "t", vec![indexes(vec![a, b, idx(vec![ic("z")], None)])]))]);
      declared(cx, &mut d, Depth::Skeleton)
    }),
    Space::new("scale", "0..40, 63..65, 127..129, 255..257, 999, 1000 (thorough: up to 5000) repetitions of each repeatable part", 0, move |ch, cx| {
      let mut sizes: Vec<usize> = (0..41).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 999, 1000]).collect();
      if deep {
        sizes.extend(41..63);
        sizes.extend([2000, 4095, 4096, 4097, 5000]);
      }
      let n = *ch.of(&sizes);
      let nm = |p: &str, i: usize| format!("{p}{i}");
      let cols: Vec<String> = (0..n.max(1)).map(|i| nm("c", i)).collect();
      let colr: Vec<&str> = cols.iter().map(|s| s.as_str()).collect();
      let b = match ch.free(15) {
        0 => (0..n).map(|i| num_block(0, i)).collect(),
        1 => (0..n).map(|i| num_block(1, i)).collect(),
        2 => (0..n).map(|i| num_block(2, i)).collect(),
        3 => (0..n).map(|i| num_block(i % 6, i)).collect(),
        4 => vec![Top::Table(table(None, "t", (0..n).map(|i| TItem::Col(col(&nm("c", i), ty(&nm("t", i), None, &nm("t", i), vec![], vec![]), None))).collect()))],
        5 => vec![Top::Enum(enum_(None, "e", (0..n).map(|i| ev(&nm("v", i), None)).collect()))],
        6 => vec![Top::Group(group("g", None, (0..n).map(|i| gi(None, &nm("t", i))).collect()))],
        7 => vec![Top::Project(project("p", (0..n).map(|i| prop(&nm("k", i), sq(&nm("v", i)))).collect()))],
        8 => vec![Top::Table(table(None, "t", vec![indexes((0..n).map(|i| idx(vec![ic(&nm("c", i)), ie("x")], None)).collect())]))],
        9 => vec![Top::Table(table(None, "t", vec![indexes(vec![idx((0..n).map(|i| ic(&nm("c", i))).collect(), None)])]))],
        10 => vec![Top::Table(table(None, "t", vec![TItem::Col(col("c", int(), settings((0..n).map(|i| attr(&nm("k", i), Some(sq(&nm("v", i))))).collect())))]))],
        11 => vec![Top::Table(table(None, "t", vec![TItem::Col(col("c", int(), settings((0..n).map(|i| iref(Rel::ALL[i % 4], rid(None, &nm("t", i), &["a"]))).collect())))]))],
        12 => vec![Top::Ref(ref_(false, None, rid(None, "t", &colr), Rel::ManyOne, rid(Some("s"), "u", &colr), None))],
        13 => {
          let args: Vec<Val> = (0..n as i64).map(Val::Int).collect();
          let raw = format!("f({})", (0..n).map(|i| i.to_string()).collect::<Vec<_>>().join(","));
          vec![Top::Table(table(None, "t", vec![TItem::Col(col("c", ty(&raw, None, "f", args, vec![]), None))]))]
        }
        _ => {
          let raw = format!("f{}", (0..n).map(|i| format!("[{i}]")).collect::<String>());
          vec![Top::Table(table(None, "t", vec![TItem::Col(col("c", ty(&raw, None, "f", vec![], (0..n as u32).map(Some).collect()), None))]))]
        }
      };
      let mut d = doc(b);
      declared(cx, &mut d, Depth::Skeleton)
    }),
  ];
  v.push(super::edits::syntax(1, Depth::Skeleton, &[]));
  v.push(super::edits::syntax(2, Depth::Skeleton, &[]));
  v.push(reruns(Depth::Skeleton, deep));
  if deep {
    v.push(Space::new("four-blocks", "up to four blocks of any kinds, 1 deviation", 1, |ch, cx| {
      let mut d = document(ch, 4);
      declared(cx, &mut d, Depth::Skeleton)
    }));
  }
  v
}

/* ------------------------------------------------------------------ C04 */

/// (template with the list in it, attributes that mean something there)
const LISTS: &[(&str, &[&str])] = &[
  (
    "Table t { z int a int [@] b int }",
    &["pk", "primary key", "unique", "null", "not null", "increment", "default: 1", "default: 'x'", "default: null", "default: `e`", "default: true", "default: w x", "note: 'n'", "note: w", "note", "ref: > a.b", "ref: <> s.c.(d)", "x", "Pk", "pk: 1", "unique: false", "note: 1", "name: 'n'", "type: hash", "default: \"dq\"", "default: #fff"],
  ),
  ("Table t { a int indexes { z [pk] (a, b) [@] y } }", &["pk", "unique", "type: btree", "type: gin", "type: gist", "type: hash", "name: 'n'", "name: w", "note: 'm'", "name: 1", "note: 2.5", "note: `q`", "primary key", "x: 1", "default: 1", "name", "note", "type", "delete: cascade", "unique: true", "type: 'hash'", "type: `gin`", "type: \"gist\""]),
  ("Table t { a int indexes { a [@] } }", &["pk", "unique", "type: btree", "type: hash", "name: 'n'", "note: 'm'", "x"]),
  ("Enum e { y a [@] z [note: 'z'] }", &["note: 'n'", "note: w x", "note", "note: 1", "x: 'y'", "pk", "default: 1", "Note: 'q'"]),
  ("Ref: a.b > c.d [@]", &["delete: cascade", "delete: restrict", "delete: set null", "delete: set default", "delete: no action", "update: cascade", "update: restrict", "update: set null", "update: set default", "update: no action", "color: #fff", "note: 'n'", "x", "delete", "update: 'cascade'", "delete: \"restrict\"", "update: 1"]),
  ("Ref r { a.b <> c.d [@] }", &["delete: cascade", "delete: set null", "update: no action", "update: set default", "x: cascade", "delete"]),
  ("Table t [@] { a int [note: 'c'] }", &["note: 'n'", "headercolor: #fff", "x", "alias: y", "note", "color: 'red'", "as: 1"]),
  ("TableGroup t [@] { a Note: 'g' }", &["note: 'n'", "color: #fff", "x", "note", "y: 1.5"]),
];

/// two hosts in one document: settings of one never show in the other
const LEAKS: &[&str] = &[
  "Table t { a int @1\nb int @2 }",
  "Table t { a int @1 }\nTable u { b int @2 }",
  "Table t { a int indexes { a @1 b @2 } }",
  "Table t { a int @1 indexes { a @2 } }",
  "Table t @1 { a int @2 }",
  "Enum e { a @1 b @2 }",
  "Enum e { a @1 }\nTable t { a int @2 }",
  "Ref: a.b > c.d @1\nRef: a.b > c.d @2",
  "Ref r { a.b > c.d @1 }\nRef: e.f < g.h @2",
  "TableGroup g @1 { a }\nTable t @2 { a int }",
  "TableGroup g @1 { a }\nTableGroup h @2 { }",
  "Table t { a int @1 }\nRef: a.b > c.d @2",
];

pub fn c04(deep: bool) -> Vec<Space> {
  vec![
    Space::new("lists", "every list of up to 3 (thorough: 4) attributes of the host's menu, for eight kinds of host", 0, move |ch, cx| {
      let (host, menu) = ch.of(LISTS);
      let n = ch.free(if deep && menu.len() < 20 { 5 } else if deep { 5 } else { 4 });
      let menu = if n == 4 { &menu[..menu.len().min(18)] } else { menu };
      let l: Vec<_> = (0..n).map(|_| *ch.of(menu)).collect();
      text(cx, &host.replace('@', &l.join(", ")), Depth::Skeleton)
    }),
    Space::new("keys-values", "every known key with every kind of value, or none, in every host, followed or preceded by another attribute", 0, |ch, cx| {
      let host = ch.of(HOSTS);
      let key = ch.of(KEYS);
      let mut vals: Vec<String> = values().iter().map(|l| format!(": {}", l.raw)).collect();
      vals.extend(["".into(), ": \"dq\"".into(), ": cascade".into(), ": hash".into(), ": set null".into()]);
      let v = ch.of(&vals).clone();
      let l = match ch.free(3) {
        0 => format!("{key}{v}"),
        1 => format!("{key}{v}, {}", ch.of(KEYS)),
        _ => format!("{}: 'o', {key}{v}", ch.of(KEYS)),
      };
      text(cx, &host.replace('@', &l), Depth::Skeleton)
    }),
    Space::new("leaks", "two hosts in one document with independent lists of up to 2 attributes each", 0, move |ch, cx| {
      let host = ch.of(LEAKS);
      const A: &[&str] = &["pk", "unique", "null", "not null", "default: 1", "note: 'n'", "name: 'm'", "increment", "delete: cascade", "update: restrict", "type: hash", "ref: > a.b", "x"];
      let mut t = host.to_string();
      for h in ["@1", "@2"] {
        let n = ch.free(if h == "@1" || deep { 4 } else { 3 });
        let l = match n {
          0 => String::new(),
          1 => "[]".into(),
          n => format!("[{}]", (1..n).map(|_| *ch.of(A)).collect::<Vec<_>>().join(", ")),
        };
        t = t.replace(h, &l);
      }
      text(cx, &t, Depth::Skeleton)
    }),
    Space::new("case", "every upper/lower-case pattern of each key that has a meaning, in its host", 0, |ch, cx| {
      let (host, _) = ch.of(LISTS);
      let kv = ch.of(&["pk", "unique", "null", "not null", "primary key", "increment", "note: 'n'", "default: 1", "name: 'n'", "type: hash", "delete: cascade", "update: cascade"]);
      let (k, v) = kv.split_once(':').unwrap_or((kv, ""));
      let k: String = k.chars().map(|c| if c != ' ' && ch.flag() { c.to_ascii_uppercase() } else { c }).collect();
      let l = if v.is_empty() { k } else { format!("{k}:{v}") };
      text(cx, &host.replace('@', &l), Depth::Skeleton)
    }),
    Space::new("near-keys", "each key with one character dropped, doubled or replaced, or extended", 0, |ch, cx| {
      let host = ch.of(HOSTS);
      let key = ch.of(KEYS);
      let at = ch.free(key.len());
      let k = match ch.free(6) {
        0 => format!("{}{}", &key[..at], &key[at + 1..]),
        1 => format!("{}{}", &key[..=at], &key[at..]),
        2 => format!("{}q{}", &key[..at], &key[at + 1..]),
        3 => format!("{}_{}", &key[..at], &key[at..]),
        4 => format!("{key}s"),
        _ => format!("{key} x"),
      };
      let v = ch.of(&["", ": 1", ": 'v'", ": cascade", ": hash"]);
      text(cx, &host.replace('@', &format!("{k}{v}")), Depth::Skeleton)
    }),
    super::edits::syntax(1, Depth::Skeleton, &[]),
    super::edits::syntax(2, Depth::Skeleton, &[]),
    reruns(Depth::Skeleton, deep),
    Space::new("projects", "project properties: up to 4 of {database_type in several forms, other keys, notes}", 0, |ch, cx| {
      const A: &[&str] = &["database_type: 'PostgreSQL'", "database_type: 'MySQL'", "database_type: 'postgresql'", "database_type: ''", "database_type: 'Oracle'", "database_type: `MySQL`", "database_type: 1", "database_type: PostgreSQL\n", "Database_type: 'MySQL'", "database type: 'MySQL'", "x: 'PostgreSQL'", "Note: 'PostgreSQL'", "database_type: true", "database_type: 'Microsoft SQL Server'", "database_type: 'SQL Server'", "database_type: 'MongoDB'", "database_type: 'MSSQL'", "note { 'm' }"];
      let n = ch.free(4);
      let t: String = (0..n).map(|_| format!("{}\n", ch.of(A))).collect();
      let after = ch.of(&["", "Project q { }", "Project q { database_type: 'MariaDB' }"]);
      text(cx, &format!("Project p {{ {t} }}\n{after}"), Depth::Skeleton)
    }),
    Space::new("scale", "lists of n attributes with a meaningful one at each position and an opposite one at another", 0, move |ch, cx| {
      let n = 1 + ch.free(if deep { 24 } else { 12 });
      let (i, j) = (ch.free(n), ch.free(n));
      let (host, menu) = ch.of(LISTS);
      let (a, b) = (ch.of(&menu[..menu.len().min(14)]), ch.of(&menu[..menu.len().min(14)]));
      let l: Vec<String> = (0..n).map(|k| if k == i { a.to_string() } else if k == j { b.to_string() } else { format!("k{k}: 'v{k}'") }).collect();
      text(cx, &host.replace('@', &l.join(", ")), Depth::Skeleton)
    }),
  ]
}

/* ------------------------------------------------------------------ C05 */

/// positions of a string or identifier: (template, quotes that may stand there)
const HOLES: &[(&str, &str)] = &[
  ("Note: @", "'t"),
  ("Note { @ }", "'t"),
  ("Table t { Note: @ }", "'t"),
  ("Table t { a int [default: @, x] }", "'t`d"),
  ("Table t { a int [note: @] }", "'t`d"),
  ("Table t [k: @] { }", "'t`d"),
  ("Table t { a f(@) }", "'t`"),
  ("Table t { a f(1,@)[] }", "'t`"),
  ("Project p { k: @ j: 1 }", "'t`"),
  ("Project p { Note { @ } }", "'t"),
  ("Enum e { a [note: @] }", "'t`d"),
  ("Table t { indexes { a [name: @] } }", "'t`d"),
  ("Table t { indexes { @ } }", "`d"),
  ("Table t { indexes { (@, b) [pk] } }", "`d"),
  ("Ref: a.b > c.d [k: @]", "'t`d"),
  ("Table @ { }", "d"),
  ("Table @.t as x { }", "d"),
  ("Table t as @ { }", "d"),
  ("Table t { @ int }", "d"),
  ("Table t { a @.e }", "d"),
  ("Enum s.@ { @ }", "d"),
  ("Ref @: a.b > c.d", "d"),
  ("Ref: @.a > b.(@, c)", "d"),
  ("Ref: x.@.a > b.c", "d"),
  ("Table t { a int [ref: > @.@] }", "d"),
  ("TableGroup @ { @ s.@ }", "d"),
  ("TableGroup g [k: @] { Note: 'x' }", "'t`d"),
  ("Project @ { }", "d"),
];

fn quote(q: char, s: &str) -> String {
  match q {
    't' => format!("'''{s}'''"),
    'd' => format!("\"{s}\""),
    q => format!("{q}{s}{q}"),
  }
}

pub fn c05(deep: bool) -> Vec<Space> {
  const PIECES: &[&str] = &["a", " ", "\n", "'", "\"", "`", "//", "/*", "*/", "é", "\\", "/", "]", "}", "''", "\t", "\r\n", "😀", "#", ",", "\u{a0}", "\u{feff}"];
  let holes = |quotes: &'static [usize]| move |ch: &mut Ch| -> (&'static str, char) {
    let (t, q) = if quotes.is_empty() { HOLES[ch.free(HOLES.len())] } else { HOLES[quotes[ch.free(quotes.len())]] };
    let q: Vec<char> = q.chars().collect();
    (t, *ch.of(&q))
  };
  let any = holes(&[]);
  let few = holes(&[0, 3, 6, 8, 13, 18]);
  let mut v = vec![
    Space::new("contents", "every text of up to 2 (thorough: 3) of 22 pieces (quotes, comment markers, blanks, line breaks, brackets, non-ASCII) in each quote form at each of 28 positions", 0, move |ch, cx| {
      let (t, q) = any(ch);
      let n = ch.free(if deep { 4 } else { 3 });
      let s: String = (0..n).map(|_| *ch.of(PIECES)).collect();
      text(cx, &t.replace('@', &quote(q, &s)), Depth::Skeleton)
    }),
    Space::new("long-contents", "every text of up to 4 of 12 pieces in each quote form at six positions", 0, move |ch, cx| {
      let (t, q) = few(ch);
      let n = ch.free(if deep { 6 } else { 5 });
      let s: String = (0..n).map(|_| *ch.of(&PIECES[..if n == 5 { 10 } else { 12 }])).collect();
      text(cx, &t.replace('@', &quote(q, &s)), Depth::Skeleton)
    }),
    Space::new("each-character", "each character up to U+0250 and one of every further block boundary, first, last and alone in each quote form at each position", 0, move |ch, cx| {
      let (t, q) = HOLES[ch.free(HOLES.len())];
      let q: Vec<char> = q.chars().collect();
      let q = *ch.of(&q);
      const MORE: &[u32] = &[0x300, 0x3a9, 0x7ff, 0x800, 0x2000, 0x2028, 0x2029, 0x3000, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff];
      let k = ch.free(0x250 + MORE.len());
      let c = char::from_u32(if k < 0x250 { k as u32 } else { MORE[k - 0x250] }).unwrap();
      let s = match ch.free(3) {
        0 => format!("{c}"),
        1 => format!("{c}a b"),
        _ => format!("a {c}"),
      };
      text(cx, &t.replace('@', &quote(q, &s)), Depth::Skeleton)
    }),
    Space::new("numbers", "digit strings of every length up to 22 around each boundary, with fractions, at each numeric position", 0, |ch, cx| {
      let t = ch.of(&["Table t { a int [default: @] }", "Project p { k: @ }", "Table t { a f(@) }", "Table t { a int[@] }", "Enum e { a [n: @] }", "Table t { a f(@,@)[7] }", "Ref: a.b > c.d [k: @]"]);
      let s = match ch.free(3) {
        0 => {
          let n = 1 + ch.free(22);
          format!("{}{}", ch.of(&["", "0", "000"]), ch.of(&["9", "1", "0", "5"]).repeat(n))
        }
        1 => {
          let base: u128 = *ch.of(&[0, 100, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 53, 1 << 63]);
          (base + ch.free(6) as u128).saturating_sub(3).to_string()
        }
        _ => format!("{}{}", ch.free(12), ch.free(12)),
      };
      let f = ch.of(&["", ".", ".0", ".5", ".10", ".000", ".123456789012345678", ".00000000000000000001"]);
      text(cx, &t.replace('@', &format!("{s}{f}")), Depth::Skeleton)
    }),
    Space::new("words", "bare words of up to 3 (thorough: 4) pieces, among them true, false, null and their extensions, at each position", 0, move |ch, cx| {
      let t = ch.of(&["Table t { a int [default: @] }", "Project p { k: @\n}", "Table t { a int [k: @, x] }", "Enum e { a [n: @] }", "Project p { k:@}"]);
      let n = 1 + ch.free(if deep { 4 } else { 3 });
      let s: String = (0..n).map(|_| *ch.of(&["true", "false", "null", "a", "Z", "1", "_", " ", "not", "n", "9z", "TRUE"])).collect();
      text(cx, &t.replace('@', &s), Depth::Skeleton)
    }),
    Space::new("every-value", "every value form at every value position, and between neighbours", 0, |ch, cx| {
      let t = ch.of(&["Table t { a int [default: @] }", "Project p { k: @\n j: @\n}", "Table t { a f(@) }", "Table t { a f(@,@) }", "Table t { a \"f(@)[1]\" }", "Enum e { a [n: @] b }", "Table t { indexes { a [n: @, m: @] } }", "Ref r { a.b > c.d [k: @] }", "TableGroup g [k: @] { }", "Table t [k: @, j] { }"]);
      let mut vals: Vec<String> = values().iter().map(|l| l.raw.clone()).collect();
      vals.extend(["\"dq\"", "#ABCDEF", "#000", "#12g", "0.0", "00.00", "`a`b", "'a''b'", "''''", "'''a''b'''", "''' ' '''", "''''a'''", "\"\"", "` x `"].map(String::from));
      let a = ch.of(&vals).clone();
      text(cx, &t.replace('@', &a), Depth::Skeleton)
    }),
    super::edits::syntax(1, Depth::Skeleton, &[]),
    Space::new("hex", "every # text of up to 7 hex digits over {0, 9, a, F}", 0, move |ch, cx| {
      let n = ch.free(8);
      let s: String = (0..n).map(|_| *ch.of(&["0", "F", "a", "9"][..if n < 6 || deep { 4 } else { 2 }].to_vec())).collect();
      text(cx, &format!("Table t [color: #{s}, x] {{ a int [default: #{s}] }}"), Depth::Skeleton)
    }),
    Space::new("identifiers", "every identifier of the menu, and every one or two characters of 20 as an unquoted one, at each identifier position", 0, |ch, cx| {
      let (t, _) = ch.of(&HOLES[15..]);
      let s = if ch.flag() {
        ch.of(IDS).to_string()
      } else {
        let n = 1 + ch.free(2);
        (0..n).map(|_| *ch.of(&["a", "Z", "_", "0", "9", "-", "é", "$", "T", "\"", ".", "'", "[", "#", "á", "ı", "/", ":", "(", "n"])).collect()
      };
      text(cx, &t.replace('@', &s), Depth::Skeleton)
    }),
    Space::new("scale", "quoted texts of n characters, plain and multi-byte, in each quote form", 0, move |ch, cx| {
      let (t, q) = *ch.of(&[("Note: @", "'t"), ("Table t { a int [default: @] }", "'t`d"), ("Table @ { }", "d")]);
      let q: Vec<char> = q.chars().collect();
      let q = *ch.of(&q);
      let n = *ch.of(&[1, 2, 3, 4, 5, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 65535, 65536]);
      let c = ch.of(&["a", "é", "😀", " ", "\n", "/", "\\", "日a"]);
      text(cx, &t.replace('@', &quote(q, &c.repeat(n))), Depth::Skeleton)
    }),
  ];
  if !deep {
    v.truncate(9);
  }
  v
}

/* ------------------------------------------------------------------ C06 */

/// separators that satisfy every kind of gap that is not glue
const LAYOUTS: &[(&str, &[&str])] = &[
  ("compact", &[]),
  ("spaced", &[" "]),
  ("lines", &["\n"]),
  ("comments", &[" /* é */ "]),
  ("mixed", &["\t", "\r\n", " // 日本\n", " /**/", "\n\n   "]),
  ("mixed", &["\n/* 😀 */\r", " ", " //\n\t"]),
];

fn layout_of(k: usize) -> impl Fn(usize, Gap) -> &'static str {
  let seps = LAYOUTS[k].1;
  move |i, g| {
    if seps.is_empty() {
      return print::compact(i, g);
    }
    match (g, seps[i % seps.len()]) {
      (Gap::Glue, _) => "",
      (Gap::Word, " ") => "\n",
      (_, s) => s,
    }
  }
}

fn spans(cx: &mut Cx, t: &str, want: &Doc) {
  against(cx, t, Some(want), Depth::Spans);
  nested(cx, t);
}

/// spans are ranges of the input, children lie in their parents, siblings follow each other; text matches
fn nested(cx: &mut Cx, t: &str) {
  let Res::Ok(d) = cx.unchecked(t) else { return };
  let mut k = Sink::new();
  k.nest = true;
  dump::real(&mut k, &d);
  for e in &k.errs {
    cx.fail(t, e.clone());
  }
  for s in &k.sp {
    if t.get(s.0..s.1).is_none() {
      cx.fail(t, format!("span {}..{} is no range of the input", s.0, s.1));
    }
  }
}

pub fn c06(deep: bool) -> Vec<Space> {
  let mut docs: Vec<String> = small_docs().iter().chain(valid_docs().iter()).map(|s| s.to_string()).collect();
  docs.push(airy(&mut kitchen_sink()));
  let toks: Vec<Vec<String>> = docs.iter().map(|d| lex(d)).collect();
  let t2 = toks.clone();
  vec![
    Space::new("one-block", "one block with up to 2 (thorough: 3) deviations under each of six layouts, with and without something before it", if deep { 3 } else { 2 }, |ch, cx| {
      let l = ch.free(LAYOUTS.len());
      let mut d = document(ch, 1);
      if ch.devflag() {
        d.blocks.insert(0, Top::Note(note(false, sq("é"))));
      }
      let lay = layout_of(l);
      let t = print::print(&mut d, &lay);
      if cx.case(&t) {
        spans(cx, &t, &d)
      }
    }),
    Space::new("blocks", "up to three blocks with 1 deviation under each layout", 1, |ch, cx| {
      let l = ch.free(LAYOUTS.len());
      let mut d = document(ch, 3);
      let lay = layout_of(l);
      let t = print::print(&mut d, &lay);
      if cx.case(&t) {
        spans(cx, &t, &d)
      }
    }),
    Space::new("one-gap", "the kitchen-sink document with each gap, and each pair of neighbouring gaps, set to each of 8 separators, others compact or spaced", 0, |ch, cx| {
      let seps = [" ", "\n", "\r\n", "\t\t", " /* é */", "\n//日\n", " /**/ ", "\n \n"];
      let mut d = kitchen_sink();
      let base = ch.free(2);
      let (_, kinds) = print::print_kinds(&mut d.clone(), &print::compact);
      let Some(at) = ch.big(kinds.len()) else { return };
      let (a, b) = (*ch.of(&seps), ch.free(seps.len() + 1));
      let t = print::print(&mut d, &|i, g| {
        let s = if i == at {
          a
        } else if i == at + 1 && b > 0 {
          seps[b - 1]
        } else if base == 0 {
          print::compact(i, g)
        } else {
          print::airy(i, g)
        };
        if g == Gap::Word && s == " " { "\n" } else { s }
      });
      if cx.case(&t) {
        spans(cx, &t, &d)
      }
    }),
    Space::new("edited", "every document with every gap replaced or inserted (18 separators): spans of those that are still accepted", 0, move |ch, cx| {
      let t = ch.of(&toks);
      let at = ch.free(t.len() + 1);
      let s = *ch.of(&["", " ", "  ", "\n", "\r", "\r\n", "\t", "//c\n", "/**/", "/*é*/", " //é\r\n ", "\n\n", "/*//*/", "//*\n", " \t\n", "/*\n*/", "//\r", "/***/"]);
      let mut t = t.clone();
      if at < t.len() && t[at].trim().is_empty() {
        t[at] = s.into()
      } else {
        t.insert(at, s.into())
      }
      let t = t.concat();
      if cx.case(&t) {
        oracle::syntax(cx, &t, Depth::Spans);
        nested(cx, &t);
      }
    }),
    Space::new("edited-tokens", "every document with every token deleted or replaced by each of 14: spans of those still accepted", 0, move |ch, cx| {
      let t = ch.of(&t2);
      let at = ch.free(t.len());
      let x = *ch.of(&["", "a", "\"é\"", "'é'", "'''\né'''", "1", "1.5", "pk", "[]", " // é\n", "b c", "`é`", "\"int(1)[2]\"", "(é)"]);
      let mut t = t.clone();
      t[at] = x.into();
      let t = t.concat();
      if cx.case(&t) {
        oracle::syntax(cx, &t, Depth::Spans);
        nested(cx, &t);
      }
    }),
    super::edits::syntax(1, Depth::Spans, &["", " ", "\n", " // é\n", "/* é */"]),
    reruns(Depth::Spans, deep),
    Space::new("values", "every literal, identifier and type form at its positions, multi-byte text before it, in three layouts", 0, |ch, cx| {
      let (t, q) = ch.of(HOLES);
      let q: Vec<char> = q.chars().collect();
      let s = *ch.of(&["", "a", " a", "\né ", "日本", "//", "/* */", "😀\r\n", "\t\u{a0}", "]}"]);
      let q = *ch.of(&q);
      let pre = *ch.of(&["", "// é\n", "Note: 'é😀'\n"]);
      let t = match ch.free(3) {
        0 => t.to_string(),
        1 => t.replace('@', "@ "),
        _ => t.replace('@', "/*é*/@/*é*/"),
      };
      let t = format!("{pre}{}", t.replace('@', &quote(q, s)));
      if cx.case(&t) {
        oracle::syntax(cx, &t, Depth::Spans);
        nested(cx, &t);
      }
    }),
    Space::new("types", "every type form with trivia inside its brackets and around it", 0, |ch, cx| {
      let x = *ch.of(&["", " ", "\n", "/*é*/", "//é\n"]);
      let t = *ch.of(&["int", "f(@)", "f(@1@)", "f(@1@,@'é'@)", "int[@]", "int[@3@]", "int[@][@2@]", "f(@1@)[@]", "s.e", "\"s é\".e[@1]", "\"f(@1@)[@2@]\"[@]", "\"a b\"", "\"my f(@)\"", "s.\"a b\"[@]"]);
      let set = *ch.of(&["", "@[pk]", " @[]", "@[@note@:@'é'@]"]);
      let pre = *ch.of(&["", "\"é\" int\n"]);
      let t = format!("Table t {{ {pre}a {t}{set}@}}").replace('@', x);
      if cx.case(&t) {
        oracle::syntax(cx, &t, Depth::Spans);
        nested(cx, &t);
      }
    }),
    Space::new("scale", "a document of n blocks, gaps and multi-byte notes: spans far from the start", 0, move |ch, cx| {
      let n = *ch.of(&[1usize, 2, 7, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 300, 500, 1000]);
      let l = ch.free(LAYOUTS.len());
      let kind = ch.free(7);
      let mut d = doc((0..n).map(|i| num_block(if kind == 6 { i % 6 } else { kind }, i)).collect());
      d.blocks.push(Top::Note(note(true, sq(&"é".repeat(n)))));
      d.blocks.push(num_block(0, n));
      let lay = layout_of(l);
      let t = print::print(&mut d, &lay);
      if cx.case(&t) {
        spans(cx, &t, &d)
      }
    }),
  ]
}

/* ------------------------------------------------------------------ C07 */

/// the real AST of `t` against `want`, without spans and raw types
fn same_meaning(cx: &mut Cx, t: &str, want: &Doc) {
  let r = cx.unchecked(t);
  cx.compared += 1;
  match r {
    Res::Panic(p) => cx.fail(t, format!("panicked: {p}")),
    Res::Err(e) => cx.fail(t, format!("the layout changes the verdict: rejected at {}..{}: {}", e.a, e.b, e.msg.replace('\n', " "))),
    Res::Ok(d) => {
      let (mut a, mut b) = (Sink::new(), Sink::new());
      a.type_raw = false;
      b.type_raw = false;
      dump::real(&mut a, &d);
      dump::mirror(&mut b, want);
      if a.s != b.s {
        cx.fail(t, "the layout changes the AST")
      } else {
        cx.out("same")
      }
    }
  }
}

/// Lays the document out with `f` and compares with its meaning. Gaps whose rule `s` does not meet keep the default.
fn laid_out(cx: &mut Cx, d: &Doc, f: &dyn Fn(usize) -> Option<&'static str>) {
  let mut d = d.clone();
  let t = print::print(&mut d, &|i, g| match f(i) {
    Some(s) if fits(g, s) => s,
    _ => print::compact(i, g),
  });
  if cx.case(&t) {
    same_meaning(cx, &t, &d)
  }
}

pub fn fits(g: Gap, s: &str) -> bool {
  match g {
    Gap::Free => true,
    Gap::Req => !s.is_empty(),
    Gap::Kw => s.starts_with(WS),
    Gap::Word => !s.is_empty() && s != " ",
    Gap::Glue => false,
  }
}

/// comments must end inside the separator
const SEPS: &[&str] = &[
  "", " ", "  ", "\t", "\n", "\r", "\r\n", "\n\n", " \n ", "\t\r\n", "//\n", "// c\n", "//c\r\n", "//c\r", " // é\n", "/**/", "/* c */", " /* é */ ", "/*\n*/", "/* // */", "/*'*/", "/*\"*/", "/*{[(*/", "//'\n", "//\"\n", "//*/\n", "// /*\n", "/***/", "/* * / */", "/*/*/", "/**//**/", "//\n//\n", "\n// Table x { }\n", " /* Note: 'x' */", "//}\n", " //\\\n", "\t/*\r*/\t", "/*`*/\n", "/*😀*/",
];

fn layout_docs() -> Vec<Doc> {
  let mut v: Vec<Doc> = small_docs().iter().chain(valid_docs().iter()).map(|s| refparse::parse(s).expect("document")).collect();
  for d in &mut v {
    for b in &mut d.blocks {
      if let Top::Table(t) = b {
        for i in &mut t.body {
          if let TItem::Col(c) = i {
            c.ty.raw = c.ty.raw.replace(", ", ",");
          }
        }
      }
    }
  }
  v.push(kitchen_sink());
  v.push(doc(vec![Top::Table(table(
    None,
    "t",
    types().into_iter().enumerate().map(|(i, t)| TItem::Col(col(&format!("c{i}"), t, if i % 3 == 0 { settings(vec![]) } else { None }))).collect(),
  ))]));
  v
}

pub fn c07(deep: bool) -> Vec<Space> {
  let docs = layout_docs();
  let (d1, d2, d3, d4) = (docs.clone(), docs.clone(), docs.clone(), docs);
  fn gaps(d: &Doc) -> usize {
    print::print_kinds(&mut d.clone(), &print::compact).1.len()
  }
  let n1: Vec<usize> = d1.iter().map(gaps).collect();
  let (n2, n3) = (n1.clone(), n1.clone());
  let mut v = vec![
    Space::new("one-gap", "every document x every gap x every separator of 39", 0, move |ch, cx| {
      let k = ch.free(d1.len());
      let at = ch.free(n1[k]);
      let s = *ch.of(SEPS);
      laid_out(cx, &d1[k], &|i| (i == at).then_some(s));
    }),
    Space::new("two-gaps", "every document x every pair of gaps (small documents; neighbours up to distance 3 in large ones) x pairs of separators", 0, move |ch, cx| {
      let k = ch.free(d2.len());
      let a = ch.free(n2[k]);
      let far = if n2[k] < 60 || deep { n2[k] - a } else { (n2[k] - a).min(4) };
      let b = a + ch.free(far);
      if a == b {
        return;
      }
      const S: &[&str] = &[" ", "\n", "// '\n", "/*c*/", "\r\n\t", "//\r", "/*\"*/ ", "/* // */"];
      let m = if far < 10 || deep { 8 } else { 4 };
      let (x, y) = (*ch.of(&S[..m]), *ch.of(&S[..m]));
      laid_out(cx, &d2[k], &|i| if i == a { Some(x) } else if i == b { Some(y) } else { None });
    }),
    Space::new("all-gaps", "every document with one separator in every gap, or two alternating", 0, move |ch, cx| {
      let d = ch.of(&d3);
      let (x, y) = (*ch.of(SEPS), *ch.of(SEPS));
      laid_out(cx, d, &|i| Some(if i % 2 == 0 { x } else { y }));
    }),
    super::edits::syntax(1, Depth::Skeleton, &["", "\n", "\t", "\r", "\r\n", " // é\n", "/**/", " /* '\" */ ", "//\r", "\n\n\n// {\n"]),
    Space::new("comments", "every comment text of up to 4 (thorough: 5) of 12 pieces, as line and block comment, at four kinds of gap", 0, move |ch, cx| {
      let n = ch.free(if deep { 6 } else { 5 });
      let s: String = (0..n).map(|_| *ch.of(&["/", "*", "'", "\"", "\n", "\r", "é", "{", "}", "a", " ", "`"])).collect();
      let c = if ch.flag() { format!("/*{s}*/") } else { format!("//{s}\n") };
      let t = ch.of(&["Table t {@ a int [pk] }", "@Note: 'x'", "Note: 'x'@", "Table t { a f(1@,2) [note: 'x'@] indexes { (a@) } }"]);
      let t = t.replace('@', &c);
      if cx.case(&t) {
        oracle::syntax(cx, &t, Depth::Skeleton)
      }
    }),
    Space::new("unterminated", "a comment opened at every gap of every document and not closed, or never opened", 0, move |ch, cx| {
      let k = ch.free(d4.len());
      let at = ch.free(n3[k]);
      let s = *ch.of(&[" /*", "/* ", " */", "/*/", "//", "/", " /* /* */", "/* * /", "/ * */", "/", "/ /"]);
      let mut d = d4[k].clone();
      let t = print::print(&mut d, &|i, g| if i == at { s } else { print::compact(i, g) });
      if cx.case(&t) {
        oracle::syntax(cx, &t, Depth::Verdict)
      }
    }),
    Space::new("scale", "n blanks, line breaks or comments at four kinds of gap", 0, move |ch, cx| {
      let n = *ch.of(&[1usize, 2, 3, 7, 8, 31, 32, 33, 64, 127, 128, 255, 256, 1000, 1024, 4096, 10000]);
      let s = ch.of(&[" ", "\n", "\t", "\r", "// c\n", "/* c */", "//\r\n", "/*\n*/"]);
      let mut d = refparse::parse("Table t { a int [pk] } Note: 'x' Ref: a.b > c.d [x, y: z]").unwrap();
      let at = ch.free(12);
      let x = s.repeat(n);
      let t = print::print(&mut d, &|i, g| if i % 12 == at && fits(g, &x) { &x } else { print::compact(i, g) });
      if cx.case(&t) {
        same_meaning(cx, &t, &d)
      }
    }),
    Space::new("machine", "one block with up to 1 (thorough: 2) deviations, all gaps set to each of 10 separators", if deep { 2 } else { 1 }, |ch, cx| {
      let s = *ch.of(&["\n", "\t", "\r", "\r\n", " // c\n", "\n/**/", " /* é */ ", "\t//\r", "  ", " /*/*/"]);
      let d = document(ch, 1);
      laid_out(cx, &d, &|_| Some(s));
    }),
  ];
  if deep {
    let d5 = layout_docs();
    v.push(Space::new("three-gaps", "the small documents with three consecutive gaps set to every triple of 12 separators", 0, move |ch, cx| {
      let k = ch.free(d5.len());
      let at = ch.free(gaps(&d5[k]));
      let x: Vec<_> = (0..3).map(|_| *ch.of(&["", " ", "\n", "\r", "//'\n", "/**/", "/*\"*/", "\t", "// /*\n", "/* // */", "//\r\n", "/*/*/"])).collect();
      laid_out(cx, &d5[k], &|i| (i >= at && i < at + 3).then(|| x[i - at]));
    }));
  }
  v
}
