//! C22: the relationship query and the index, against the relationships and names the document declares.
//! Built only with the feature `hook` (the analysis result comes from the hook `dbml_rs::verif`).
use super::sem::{self, P};
use crate::explore::{Ch, Cx, Space};
use crate::mirror::{Doc, Settings, Val};
use crate::real::Res;
use crate::refparse;
use crate::refsem::{sch, tkey, Key, Model, PUBLIC};
use dbml_rs::ast::{Ident, RefIdent, RefSettings, Relation, TableIdent};
use dbml_rs::utils::get_table_refs;
use dbml_rs::verif::{analyze, AnalyzedIndexer};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn ident(s: &str) -> Ident {
  Ident { span_range: 0..0, raw: s.into(), to_string: s.into() }
}

/// one relationship of an answer (its own type cannot be named from outside)
struct Row<'a> {
  at: usize,
  lhs: &'a RefIdent,
  rel: &'a Relation,
  rhs: &'a RefIdent,
  settings: &'a Option<RefSettings>,
}
macro_rules! rows {
  ($v:expr) => {
    $v.iter().map(|r| Row { at: r.span_range.start, lhs: &r.lhs, rel: &r.rel, rhs: &r.rhs, settings: &r.settings }).collect::<Vec<_>>()
  };
}

/// one relationship, as far as a query tells
fn real_row(r: &Row) -> String {
  let cols = |c: &[Ident]| c.iter().map(|i| format!("{:?}", i.to_string)).collect::<Vec<_>>().join(",");
  let mut s = format!("at {}: ({}) {:?} ({})", r.at, cols(&r.lhs.compositions), r.rel, cols(&r.rhs.compositions));
  if let Some(x) = r.settings {
    for a in &x.attributes {
      s += &format!(" [{:?}={:?}]", a.key.to_string, a.value.as_ref().map(|v| v.raw.as_str()));
    }
    s += &format!(" del={:?} upd={:?}", x.on_delete.as_ref().map(|a| a.to_string()), x.on_update.as_ref().map(|a| a.to_string()));
  }
  s
}

fn settings(s: &Settings) -> String {
  let act = |k: &str| match s.last_val(k) {
    Some(Val::Enum(x)) => Some(x.clone()),
    _ => None,
  };
  let mut o = String::new();
  for a in s.attrs() {
    o += &format!(" [{:?}={:?}]", a.key.text, a.val.as_ref().map(|v| v.raw.as_str()));
  }
  o + &format!(" del={:?} upd={:?}", act("delete"), act("update"))
}

fn want_rows(m: &Model) -> Vec<(Key, Key, String)> {
  let cols = |c: &[&crate::mirror::Ident]| c.iter().map(|i| format!("{:?}", i.text)).collect::<Vec<_>>().join(",");
  m.refs
    .iter()
    .map(|r| {
      let rel = match r.rel.sym() {
        ">" => "Many2One",
        "<" => "One2Many",
        "-" => "One2One",
        _ => "Many2Many",
      };
      let mut s = format!("at {}: ({}) {rel} ({})", r.sp.a, cols(&r.lhs.cols), cols(&r.rhs.cols));
      if let Some(x) = r.settings {
        s += &settings(x);
      }
      (r.lhs.key.clone(), r.rhs.key.clone(), s)
    })
    .collect()
}

fn compare(cx: &mut Cx, text: &str, what: &str, real: &[Row], mut want: Vec<&str>) {
  let mut real: Vec<String> = real.iter().map(real_row).collect();
  real.sort();
  want.sort();
  if real != want {
    cx.fail(text, format!("{what}: expected {want:?}, got {real:?}"));
  }
}

/// the table an endpoint of an indexed relationship is in
fn lands(r: &dbml_rs::ast::RefIdent, m: &Model) -> Key {
  match &r.schema {
    Some(s) => (s.to_string.clone(), r.table.to_string.clone()),
    None => m.aliases.get(&r.table.to_string).cloned().unwrap_or((PUBLIC.into(), r.table.to_string.clone())),
  }
}

fn query(cx: &mut Cx, text: &str, ident: &TableIdent, key: &Key, want: &[(Key, Key, String)], a: &AnalyzedIndexer, m: &Model, how: &str) {
  cx.impl_calls += 1;
  cx.compared += 1;
  let q = match catch_unwind(AssertUnwindSafe(|| get_table_refs(ident, a))) {
    Ok(q) => q,
    Err(_) => return cx.fail(text, format!("the query for {}.{} panics", key.0, key.1)),
  };
  let (to, by, own) = (rows!(q.ref_to), rows!(q.ref_by), rows!(q.ref_self));
  let of = |f: &dyn Fn(bool, bool) -> bool| want.iter().filter(|w| f(w.0 == *key, w.1 == *key)).map(|w| w.2.as_str()).collect::<Vec<_>>();
  let n = format!("query for {}.{} {how}", key.0, key.1);
  compare(cx, text, &format!("{n}: ref_to"), &to, of(&|l, r| l && !r));
  compare(cx, text, &format!("{n}: ref_by"), &by, of(&|l, r| !l && r));
  compare(cx, text, &format!("{n}: ref_self"), &own, of(&|l, r| l && r));
  for (v, l, r) in [(&to, true, false), (&by, false, true), (&own, true, true)] {
    for x in v {
      if (lands(x.lhs, m) == *key) != l || (lands(x.rhs, m) == *key) != r {
        cx.fail(text, format!("{n}: the relationship returned is between other tables: {}", real_row(x)));
      }
    }
  }
  cx.out(match (q.ref_to.len() + q.ref_by.len(), q.ref_self.len()) {
    (0, 0) => "no relationship",
    (_, 0) => "relationships",
    (0, _) => "self-references",
    _ => "relationships and self-references",
  });
}

pub fn answers(cx: &mut Cx, text: &str) {
  let Res::Ok(ast) = cx.unchecked(text) else { return };
  let Some(d) = refparse::parse(text) else { return };
  cx.impl_calls += 1;
  let a = match catch_unwind(AssertUnwindSafe(|| analyze(&ast))) {
    Ok(Ok(a)) => a,
    Ok(Err(_)) => return cx.out("rejected by the analysis"),
    Err(_) => return cx.fail(text, "the analysis panics"),
  };
  let m = Model::new(&d);
  let want = want_rows(&m);
  let mut names: BTreeSet<String> = ["nope", ""].map(String::from).into();
  let mut schemas: BTreeSet<String> = ["public", "nope", "", "Public"].map(String::from).into();
  for t in ast.tables() {
    let key = (t.ident.schema.as_ref().map(|s| s.to_string.clone()).unwrap_or(PUBLIC.into()), t.ident.name.to_string.clone());
    query(cx, text, &t.ident, &key, &want, &a, &m, "by its declaration");
    // the same table, identified otherwise
    let bare = TableIdent { span_range: 0..0, name: ident(&key.1), schema: Some(ident(&key.0)), alias: None };
    query(cx, text, &bare, &key, &want, &a, &m, "with its schema");
    if key.0 == PUBLIC {
      let bare = TableIdent { schema: None, ..bare };
      query(cx, text, &bare, &key, &want, &a, &m, "without schema");
    }
    names.extend([key.1.clone(), key.1.to_uppercase(), format!("{} ", key.1)]);
    schemas.insert(key.0);
  }
  // tables that are not declared
  let keys: BTreeSet<Key> = m.tables.iter().map(|t| tkey(t)).collect();
  for s in &schemas {
    for n in &names {
      let key = (s.clone(), n.clone());
      if !keys.contains(&key) {
        let t = TableIdent { span_range: 0..0, name: ident(n), schema: Some(ident(s)), alias: None };
        query(cx, text, &t, &key, &[], &a, &m, "which is not declared");
      }
    }
  }
  lookups(cx, text, &d, &m, &a);
}

#[cfg(not(feature = "lookup"))]
fn lookups(_: &mut Cx, _: &str, _: &Doc, _: &Model, _: &AnalyzedIndexer) {}

#[cfg(feature = "lookup")]
fn lookups(cx: &mut Cx, text: &str, d: &Doc, m: &Model, a: &AnalyzedIndexer) {
  let ix = &a.indexer;
  // every name of the document, and some more
  let mut pool: BTreeSet<String> = ["", "public", "nope", "Public"].map(String::from).into();
  let mut schemas: BTreeSet<String> = pool.clone();
  let mut values: BTreeMap<Key, BTreeSet<String>> = BTreeMap::new();
  let mut columns: BTreeMap<Key, BTreeSet<String>> = BTreeMap::new();
  for e in &m.enums {
    let k = (sch(&e.schema), e.name.text.clone());
    pool.insert(k.1.clone());
    schemas.insert(k.0.clone());
    values.insert(k, e.values.iter().map(|v| v.value.text.clone()).collect());
  }
  for t in &m.tables {
    let k = tkey(t);
    pool.insert(k.1.clone());
    pool.extend(t.alias.iter().map(|a| a.text.clone()));
    schemas.insert(k.0.clone());
    columns.insert(k, t.cols().map(|c| c.name.text.clone()).collect());
  }
  for g in &m.groups {
    pool.insert(g.ident.text.clone());
  }
  let mut members: Vec<String> = values.values().chain(columns.values()).flatten().cloned().collect();
  members.extend(["nope".into(), String::new()]);
  members.sort();
  members.dedup();
  let idents: Vec<Ident> = members.iter().map(|s| ident(s)).collect();
  let mut bad = vec![];
  for s in &schemas {
    for n in &pool {
      let k = (s.clone(), n.clone());
      cx.impl_calls += 3;
      cx.compared += 3;
      if ix.contains_table(s, n) != columns.contains_key(&k) {
        bad.push(format!("contains_table({s:?}, {n:?}) is {}", !columns.contains_key(&k)));
      }
      if ix.contains_enum(s, n) != values.contains_key(&k) {
        bad.push(format!("contains_enum({s:?}, {n:?}) is {}", !values.contains_key(&k)));
      }
      let mut given = vec![Some(s.clone())];
      if s == PUBLIC {
        given.push(None);
      }
      for g in given {
        let got = ix.lookup_enum_values(&g, n, &members);
        let want: Vec<bool> = members.iter().map(|v| values.get(&k).is_some_and(|x| x.contains(v))).collect();
        if got.1 != (values.contains_key(&k), want) || got.0 != m.schema_exists(s) {
          bad.push(format!("lookup_enum_values({g:?}, {n:?}, {members:?}) is {got:?}"));
        }
        let gi = g.as_deref().map(ident);
        for c in &idents {
          cx.impl_calls += 1;
          cx.compared += 1;
          let want = columns.get(&k).is_some_and(|x| x.contains(&c.to_string));
          let got = ix.lookup_table_fields(&gi, &ident(n), &vec![c.clone()], text).is_ok();
          if got != want {
            bad.push(format!("lookup_table_fields({g:?}, {n:?}, {:?}) is {got}", c.to_string));
          }
        }
        if idents.len() >= 2 && columns.contains_key(&k) {
          let all = columns[&k].len() == idents.len();
          if ix.lookup_table_fields(&gi, &ident(n), &idents, text).is_ok() != all {
            bad.push(format!("lookup_table_fields({g:?}, {n:?}, {members:?}) is {}", !all));
          }
        }
      }
    }
  }
  for n in pool.iter().chain(&members) {
    cx.impl_calls += 1;
    cx.compared += 1;
    let got = ix.resolve_alias(n).cloned();
    let want = m.aliases.get(n).cloned();
    if got != want {
      bad.push(format!("resolve_alias({n:?}) is {got:?}"));
    }
  }
  let _ = d;
  if let Some(b) = bad.first() {
    cx.fail(text, format!("the index: {b}"));
  }
}

/// tables with confusable names, and k relationships between them
const DECL: &[&str] = &[
  "Table t as x { a int [unique] b int [unique] c int [unique] indexes { (a, b) [pk] (b, c) [unique] }@0 }",
  "Table s.t as u { a int [unique] b int [unique] c int [unique]@1 indexes { (a, b) [pk] (b, c) [unique] } }",
  "Table public.u as t2 { a int [unique] b int [unique] c int [unique] indexes { (a, b) [pk] (b, c) [unique] }@2 }",
];
/// spellings of the three tables
const SPELL: [&[&str]; 3] = [&["t", "x", "public.t", "\"t\"", "\"public\".\"t\"", "\"x\""], &["s.t", "u", "\"s\".t", "\"u\""], &["public.u", "t2", "public.\"u\"", "\"t2\""]];
const COLS: &[(&[&str], &str)] = &[(&["a"], "a"), (&["b"], "\"b\""), (&["c"], "(c)"), (&["a", "b"], "(a, b)"), (&["c", "b"], "(c, \"b\")")];
const SETS: &[&str] = &["", " [delete: cascade]", " [update: set null, delete: no action]", " [update: restrict]", " [k: 1, delete: set default, j]"];

fn relation(ch: &mut Ch, own: &mut [String; 3], refs: &mut Vec<String>) {
  let (l, r) = (ch.free(3), ch.free(3));
  let rel = *ch.of(&[">", "<", "-", "<>"]);
  let (cl, cr) = (ch.dev(COLS.len()), ch.dev(COLS.len()));
  let (nl, nr) = (ch.dev(SPELL[l].len()), ch.dev(SPELL[r].len()));
  let right = format!("{}.{}", SPELL[r][nr], COLS[cr].1);
  match ch.dev(4) {
    0 => refs.push(format!("Ref: {}.{} {rel} {right}{}", SPELL[l][nl], COLS[cl].1, ch.devof(SETS))),
    1 => refs.push(format!("Ref n {{ {}.{} {rel} {right}{} }}", SPELL[l][nl], COLS[cl].1, ch.devof(SETS))),
    k => {
      // inline, on a column of its own; the second form beside another attribute
      let n = own[l].matches("int").count();
      own[l] += &format!("\nq{n} int [{}unique, ref: {rel} {right}]", if k == 3 { "note: 'x', " } else { "" });
    }
  }
}

fn tables(own: &[String; 3], refs: &[String], order: usize) -> String {
  let mut t: Vec<String> = DECL.iter().enumerate().map(|(i, d)| d.replace(&format!("@{i}"), &own[i])).collect();
  if order & 1 > 0 {
    t.reverse();
  }
  if order & 2 > 0 {
    format!("{}\n{P}{}", refs.join("\n"), t.join("\n"))
  } else {
    format!("{P}{}\n{}", t.join("\n"), refs.join("\n"))
  }
}

pub fn c22(deep: bool) -> Vec<Space> {
  let go = |ch: &mut Ch, cx: &mut Cx, k: usize| {
    let mut own = [String::new(), String::new(), String::new()];
    let mut refs = vec![];
    for _ in 0..k {
      relation(ch, &mut own, &mut refs);
    }
    let t = tables(&own, &refs, ch.dev(4));
    if cx.case(&t) {
      answers(cx, &t)
    }
  };
  let mut v = vec![
    Space::new("one", "three tables with confusable names and aliases x one relationship: both ends, kind; up to 4 deviations (columns, spelling of each end, Ref, block or inline, settings, order of the blocks)", 4, move |ch, cx| go(ch, cx, 1)),
    Space::new("two", "the same with two relationships and up to 1 (thorough: 2) deviations", if deep { 2 } else { 1 }, move |ch, cx| go(ch, cx, 2)),
    Space::new("three", "the same with three relationships and no (thorough: 1) deviation", deep as u32, move |ch, cx| {
      if deep {
        go(ch, cx, 3)
      } else {
        // the kinds of the second and third fixed
        let mut own = [String::new(), String::new(), String::new()];
        let mut refs = vec![];
        relation(ch, &mut own, &mut refs);
        for rel in ["<>", "-"] {
          let (l, r) = (ch.free(3), ch.free(3));
          refs.push(format!("Ref: {}.b {rel} {}.c", SPELL[l][0], SPELL[r][1]));
        }
        let t = tables(&own, &refs, 0);
        if cx.case(&t) {
          answers(cx, &t)
        }
      }
    }),
    Space::new("scale", "n tables in a chain or a star over three schemas, with aliases, self-references at every i-th; every table queried", 0, move |ch, cx| {
      let n = 1 + ch.free(if deep { 40 } else { 14 });
      let step = 1 + ch.free(4);
      let (star, inline) = (ch.flag(), ch.flag());
      let names = ch.free(3);
      let sc = |k: usize| ["", "s.", "public."][k % 3];
      let name = |k: usize| match names {
        0 => format!("{}t{k}", sc(k)),
        1 => format!("l{k}"),
        _ => format!("{}\"t{k}\"", if k % 3 == 0 { "public." } else { sc(k) }),
      };
      let mut t = P.to_string();
      let mut refs = String::new();
      for k in 0..n {
        let to = if star { 0 } else { (k + 1) % n };
        let mut c = String::new();
        if inline {
          c = format!("f int [ref: > {}.id]", name(to));
        } else {
          refs += &format!("Ref: {}.f > {}.id\n", name(k), name(to));
          c += "f int";
        }
        if k % step == 0 {
          c += &format!("\ng int [ref: > {}.id]", name(k));
        }
        t += &format!("Table {}t{k} as l{k} {{ id int [pk]\n{c} }}\n", sc(k));
      }
      let t = t + &refs;
      if cx.case(&t) {
        answers(cx, &t)
      }
    }),
    Space::new("pool", "every document of a pool, and every pair of them", 0, {
      let mut pool: Vec<String> = super::equiv::bases();
      pool.dedup();
      move |ch, cx| {
        let (a, b) = (ch.of(&pool), ch.free(pool.len() + 1));
        let t = if b == pool.len() { a.clone() } else { format!("{a}\n{}", pool[b].replace("Project p {}", "")) };
        if cx.case(&t) {
          answers(cx, &t)
        }
      }
    }),
  ];
  for m in sem::all(deep as usize) {
    if !deep && ["C13", "C12", "C11"].contains(&m.prop) {
      continue;
    }
    let gen = m.gen;
    let bound = if deep { m.bound } else { 0 };
    v.push(Space::new(format!("{}/{}", m.prop, m.name), format!("{}: every accepted document, every table queried, every name looked up", m.about), bound, move |ch, cx| {
      if let Some(t) = gen(ch) {
        if cx.case(&t) {
          answers(cx, &t)
        }
      }
    }));
  }
  v
}
