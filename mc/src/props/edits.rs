//! Documents a few structural edits away from a known one: what a rule does in the presence of features that have
//! nothing to do with it. A base (each single violation in its frame, and valid documents) is parsed into the
//! mirror AST, changed there in every possible way (one element added, removed, doubled, moved, renamed, retyped,
//! or given one more setting), printed, and judged by the reference model like any other text.
use super::sem::{BAD, FRAME, M};
use crate::explore::{Ch, Space};
use crate::gen::{self, id, lit};
use crate::mirror::*;
use crate::{oracle, print, refparse, refsem};
use std::sync::LazyLock;

/// Visits every possible edit in a fixed order and carries out the one with number `want`.
struct Ed {
  want: usize,
  n: usize,
  pool: Vec<String>,
}

impl Ed {
  fn hit(&mut self) -> bool {
    self.n += 1;
    self.n == self.want
  }
}

macro_rules! on {
  ($e:expr, $do:expr) => {
    if $e.hit() {
      $do;
      return true;
    }
  };
}
macro_rules! go {
  ($x:expr) => {
    if $x {
      return true;
    }
  };
}

/// a name as it has to be written
fn name(t: &str) -> Ident {
  let plain = t.starts_with(|c: char| c.is_ascii_alphabetic()) && t.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
  if plain { id(t) } else { id(&format!("\"{t}\"")) }
}

fn ident(e: &mut Ed, i: &mut Ident) -> bool {
  for k in 0..e.pool.len() {
    on!(e, *i = name(&e.pool[k]));
  }
  on!(e, *i = if i.raw.starts_with('"') { name(&i.text) } else { id(&format!("\"{}\"", i.text)) });
  on!(e, *i = name(&i.text.to_uppercase()));
  on!(e, *i = name(&format!("{}é", i.text)));
  on!(e, *i = name(&format!("{} ", i.text)));
  false
}

fn schema(e: &mut Ed, s: &mut Option<Ident>) -> bool {
  if s.is_some() {
    on!(e, *s = None);
  }
  for n in ["public", "s", "q"] {
    on!(e, *s = Some(id(n)));
  }
  false
}

/// every list: an item removed, doubled, moved to the front or to the end
fn list<T: Clone>(e: &mut Ed, l: &mut Vec<T>) -> bool {
  for i in 0..l.len() {
    on!(e, drop(l.remove(i)));
    on!(e, l.insert(i, l[i].clone()));
    if i > 0 {
      on!(e, l[..=i].rotate_right(1));
    }
    if i + 1 < l.len() {
      on!(e, l[i..].rotate_left(1));
    }
  }
  false
}

#[derive(Clone, Copy)]
enum Host {
  Table,
  Col,
  Index,
  Ref,
  Value,
  Group,
}

/// the attributes offered to each kind of list
static ATTRS: LazyLock<[Vec<Item>; 6]> = LazyLock::new(|| [Host::Table, Host::Col, Host::Index, Host::Ref, Host::Value, Host::Group].map(attrs));

fn attrs(h: Host) -> Vec<Item> {
  let a = |k: &str| gen::attr(k, None);
  let v = |k: &str, r: &str| gen::attr(k, Some(lit(r, Val::Null)));
  match h {
    Host::Table => vec![v("headercolor", "#abc"), v("note", "'n'"), a("x"), a("pk")],
    Host::Col => {
      let mut l: Vec<_> = ["pk", "primary key", "unique", "null", "not null", "increment", "x"].iter().map(|k| a(k)).collect();
      l.extend(["'ab'", "1", "70000", "true", "null", "`f()`", "on"].iter().map(|d| v("default", d)));
      l.extend([v("note", "'é'"), v("x", "1")]);
      l.push(gen::iref(Rel::ManyOne, gen::rid(None, "t", &["a"])));
      l.push(gen::iref(Rel::OneOne, gen::rid(Some("s"), "u", &["a"])));
      l
    }
    Host::Index => vec![a("pk"), a("unique"), v("type", "btree"), v("type", "hash"), v("name", "'i'"), v("note", "'n'"), a("x")],
    Host::Ref => vec![v("delete", "cascade"), v("update", "no action"), a("x")],
    Host::Value | Host::Group => vec![v("note", "'n'"), a("x")],
  }
}

fn settings(e: &mut Ed, s: &mut Option<Settings>, h: Host) -> bool {
  match s {
    None => on!(e, *s = gen::settings(vec![])),
    Some(l) => {
      if l.items.is_empty() {
        on!(e, *s = None);
      } else {
        go!(list(e, &mut l.items));
      }
    }
  }
  let long = s.as_ref().is_some_and(|s| !s.items.is_empty());
  for x in &ATTRS[h as usize] {
    on!(e, s.get_or_insert_with(Default::default).items.push(x.clone()));
    if long {
      on!(e, s.as_mut().unwrap().items.insert(0, x.clone()));
    }
  }
  for i in s.iter_mut().flat_map(|s| &mut s.items) {
    match i {
      Item::Ref(r) => {
        go!(rel(e, &mut r.rel));
        go!(endpoint(e, &mut r.rhs));
      }
      Item::Attr(a) => {
        if let Some(l) = &mut a.val {
          for v in ["1", "'ab'", "null", "true", "`x`", "on", "btree"] {
            on!(e, *l = lit(v, Val::Null));
          }
        }
      }
    }
  }
  false
}

fn rel(e: &mut Ed, r: &mut Rel) -> bool {
  for x in Rel::ALL {
    if x != *r {
      on!(e, *r = x);
    }
  }
  false
}

fn endpoint(e: &mut Ed, r: &mut RefIdent) -> bool {
  go!(schema(e, &mut r.schema));
  go!(ident(e, &mut r.table));
  for c in &mut r.cols {
    go!(ident(e, c));
  }
  if r.paren {
    go!(list(e, &mut r.cols));
    if r.cols.len() == 1 {
      on!(e, r.paren = false);
    }
  } else {
    on!(e, r.paren = true);
  }
  for k in 0..e.pool.len() {
    on!(e, {
      r.cols.push(name(&e.pool[k]));
      r.paren = true;
    });
  }
  false
}

const TYPES: &[&str] = &["int", "integer", "int8", "smallint", "text", "bool", "varchar", "varchar(3)", "\"character varying(3)\"", "char(2)", "decimal(3,1)", "timestamp(1)", "\"double precision\"", "e", "s.e", "nope", "int(1)", "varchar(3)[]", "e[]"];

fn ty(e: &mut Ed, t: &mut Type) -> bool {
  for x in TYPES {
    on!(e, t.raw = x.to_string());
  }
  on!(e, t.raw += "[]");
  on!(e, t.raw += "[3]");
  if !t.raw.contains(['(', '"', '[']) {
    on!(e, t.raw += "(2)");
    on!(e, t.raw += "(2,1)");
  }
  false
}

fn column(n: &str, t: &str, keys: &[&str]) -> TItem {
  let s = if keys.is_empty() { None } else { gen::settings(keys.iter().map(|k| gen::attr(k, None)).collect()) };
  TItem::Col(gen::col(n, gen::ty(t, None, t, vec![], vec![]), s))
}

static DEFS: LazyLock<Vec<IndexDef>> = LazyLock::new(|| {
  let unique = || gen::settings(vec![gen::attr("unique", None)]);
  vec![gen::idx(vec![gen::ic("a")], None), gen::idx(vec![gen::ic("b"), gen::ic("a")], unique()), gen::idx(vec![gen::ie("a")], unique())]
});
static ADDS: LazyLock<Vec<TItem>> = LazyLock::new(|| {
  let mut v = vec![
    column("zz", "int", &[]),
    column("zz", "int", &["pk"]),
    column("zz", "varchar(3)", &["unique"]),
    column("a", "int", &[]),
    TItem::Note(gen::note(false, gen::sq("é"))),
    gen::indexes(vec![]),
  ];
  v.extend(DEFS.iter().map(|d| gen::indexes(vec![d.clone()])));
  v
});

fn table(e: &mut Ed, t: &mut Table) -> bool {
  go!(schema(e, &mut t.schema));
  go!(ident(e, &mut t.name));
  match &mut t.alias {
    Some(a) => {
      go!(ident(e, a));
      on!(e, t.alias = None);
    }
    None => {
      for n in ["z", "t", "u", "a"] {
        on!(e, t.alias = Some(id(n)));
      }
    }
  }
  go!(settings(e, &mut t.settings, Host::Table));
  go!(list(e, &mut t.body));
  for x in ADDS.iter() {
    on!(e, t.body.push(x.clone()));
    on!(e, t.body.insert(0, x.clone()));
  }
  for i in &mut t.body {
    match i {
      TItem::Col(c) => {
        go!(ident(e, &mut c.name));
        go!(ty(e, &mut c.ty));
        go!(settings(e, &mut c.settings, Host::Col));
      }
      TItem::Indexes(x) => {
        go!(list(e, &mut x.defs));
        for d in DEFS.iter() {
          on!(e, x.defs.push(d.clone()));
          on!(e, x.defs.insert(0, d.clone()));
        }
        for d in &mut x.defs {
          go!(settings(e, &mut d.settings, Host::Index));
          if d.multi {
            go!(list(e, &mut d.cols));
          }
          for k in 0..e.pool.len() {
            on!(e, {
              d.cols.push(IdxCol::Id(name(&e.pool[k])));
              d.multi = true;
            });
          }
          on!(e, {
            d.cols.push(gen::ie("f()"));
            d.multi = true;
          });
          for c in &mut d.cols {
            if let IdxCol::Id(i) = c {
              go!(ident(e, i));
              on!(e, *c = gen::ie(&i.text.clone()));
            } else {
              on!(e, *c = gen::ic("a"));
            }
          }
        }
      }
      TItem::Note(_) => (),
    }
  }
  false
}

fn block(e: &mut Ed, b: &mut Top) -> bool {
  match b {
    Top::Project(p) => {
      for x in [gen::prop("k", gen::sq("é")), gen::prop("note", gen::sq("é")), PItem::Note(gen::note(true, gen::tq("n")))] {
        on!(e, p.body.push(x));
      }
      list(e, &mut p.body)
    }
    Top::Table(t) => table(e, t),
    Top::Enum(x) => {
      go!(schema(e, &mut x.schema));
      go!(ident(e, &mut x.name));
      go!(list(e, &mut x.values));
      for n in ["on", "a", "1", "null", "true"] {
        on!(e, x.values.push(EnumValue { value: name(n), ..Default::default() }));
      }
      for v in &mut x.values {
        go!(ident(e, &mut v.value));
        go!(settings(e, &mut v.settings, Host::Value));
      }
      false
    }
    Top::Ref(r) => {
      go!(rel(e, &mut r.rel));
      go!(endpoint(e, &mut r.lhs));
      go!(endpoint(e, &mut r.rhs));
      on!(e, std::mem::swap(&mut r.lhs, &mut r.rhs));
      on!(e, {
        r.block = !r.block;
        if r.block {
          r.settings = None
        }
      });
      if r.name.is_none() {
        on!(e, r.name = Some(id("\"r é\"")));
      }
      settings(e, &mut r.settings, Host::Ref)
    }
    Top::Group(g) => {
      go!(ident(e, &mut g.ident));
      go!(settings(e, &mut g.settings, Host::Group));
      go!(list(e, &mut g.body));
      on!(e, g.body.push(GItem::Note(gen::note(false, gen::sq("é")))));
      for k in 0..e.pool.len() {
        on!(e, g.body.push(GItem::Item(GroupItem { name: name(&e.pool[k]), ..Default::default() })));
      }
      for i in &mut g.body {
        if let GItem::Item(i) = i {
          go!(schema(e, &mut i.schema));
          go!(ident(e, &mut i.name));
        }
      }
      false
    }
    Top::Note(_) => false,
  }
}

static BLOCKS: LazyLock<Vec<Top>> = LazyLock::new(|| {
  let mut v = refparse::parse("Table zz as w { a int [pk] }\nTable s.zz { a int }\nEnum zz { on }\nEnum q.e { on }\nRef: t.a > t.a\nNote { 'x' }\nTableGroup zz { t }").unwrap().blocks;
  v.push(Top::Project(gen::project("p2", vec![])));
  v
});

/// the edits of the blocks from number `from` on
fn edit(e: &mut Ed, d: &mut Doc, from: usize, anywhere: bool) -> bool {
  for b in &mut d.blocks[from..] {
    go!(block(e, b));
  }
  for i in from..d.blocks.len() {
    on!(e, drop(d.blocks.remove(i)));
    on!(e, d.blocks.insert(i, d.blocks[i].clone()));
    if i > 0 {
      on!(e, d.blocks[..=i].rotate_right(1));
    }
  }
  if !anywhere {
    return false;
  }
  for b in BLOCKS.iter() {
    on!(e, d.blocks.push(b.clone()));
    on!(e, d.blocks.insert(0, b.clone()));
  }
  // all columns of one type
  for t in TYPES {
    on!(e, {
      for b in &mut d.blocks {
        if let Top::Table(x) = b {
          for i in &mut x.body {
            if let TItem::Col(c) = i {
              c.ty.raw = t.to_string();
            }
          }
        }
      }
    });
  }
  false
}

fn pool(d: &Doc) -> Vec<String> {
  let mut v = vec!["zz".to_string()];
  for b in &d.blocks {
    match b {
      Top::Table(t) => {
        v.push(t.name.text.clone());
        v.extend(t.alias.iter().map(|a| a.text.clone()));
        v.extend(t.cols().map(|c| c.name.text.clone()));
      }
      Top::Enum(x) => {
        v.push(x.name.text.clone());
        v.extend(x.values.iter().map(|x| x.value.text.clone()));
      }
      Top::Group(g) => v.push(g.ident.text.clone()),
      _ => (),
    }
  }
  v.sort();
  v.dedup();
  v.truncate(12);
  v
}

struct Base {
  doc: Doc,
  from: usize,
}

/// fragments that keep every rule in the frame
const GOOD: &[(&str, &str)] = &[
  ("C10", "Table q.t as z [k, l: 1] { A int a int \"a \" int } Enum q.e { on On \"on \" } TableGroup G { t }"),
  ("C11", "Table f { a int [pk, not null, unique] b int[] [null] c int [not null] indexes { b [unique] (a, c) } }"),
  ("C11", "Table f { a int [not null] b int [null] indexes { (a, b) [pk] } }"),
  ("C12", "Table f { a int b int [unique] indexes { a (a, b) (b, a) [unique] `a` [unique] a [type: hash] a [type: btree, name: 'x'] (a, `b`) [pk] } }"),
  ("C13", "Table f { a varchar(3) [default: 'abc'] b char(2) [null, default: 'é😀'] c smallint [default: 32767] d decimal(3,1)[] [null, default: null] e bool [default: true] f \"timestamp with time zone(3)\" [default: `now()`] }"),
  ("C14", "Table f { a e [default: on] b s.e [unique, default: 'on'] c public.e[] [null, default: null] d e [default: `x`] g nope }"),
  ("C15", "Table f as k { a int [ref: > t.a] b int [ref: - x.a] c int } Ref: k.c > y.a"),
  ("C16", "Ref: t.(n, m) > s.u.(a, b) Ref: x.a - s.u.a"),
  ("C16", "Table f { a varchar(3) [ref: > s.u.v] b int e int indexes { (b, e) [unique] } } Ref: f.(b, e) <> s.u.(b, a)"),
  ("C17", "Ref: t.n > t.a Ref: t.m > t.a Ref: t.a - s.u.a Ref: s.u.a <> x.a"),
  ("C18", "TableGroup f [note: 'n'] { t s.u Note: 'x' } TableGroup h { y x }"),
];

/// the same with their declarations at hand, so that these are edited too
const OWN: &[&str] = &[
  "Enum k { on off \"é\" } Table f { a k [default: on] b k [default: 'é'] }",
  "Enum r.k { on off \"é\" } Table f { a r.k [default: off] }",
  "Enum k { on } Enum r.k { off } Table f { a k [default: off] b r.k[] [default: off] }",
  "Table f { a int [pk] } Table h as i { a int [ref: > f.a] } Ref: i.a > f.zz",
  "Table r.f { a int [pk] } Table h as i { a int } Ref: i.a > r.f.a",
  "Table f { a int b int indexes { (a, b) [pk] } } Table r.h { a int b int } Ref: r.h.(a, b) > f.(b, a)",
  "Table f { a int b int indexes { a [pk] } } Table r.h { a int b int } Ref: r.h.b > f.a Ref: f.b - h.a",
  "Table f { a k [unique] } Table h { a k [unique, ref: - f.a] } Enum k { on }",
  "Table f { a int [unique] b int } Table h { a int [unique, ref: > f.a] b int } Ref: h.a - f.b",
  "Table f as h { a int [unique] } Table r.h as i { a int [unique] } Ref: h.a <> i.a Ref: r.h.a <> f.a",
  "Table f { a int [unique] b int [unique] } Table h { c int } Ref: h.c > f.a Ref r { f.b < h.c }",
  "Table f as i { } Table r.f as j { } TableGroup k { i r.f } TableGroup l { j f f }",
];

/// all documents with one violation, and valid ones, of one property or all
fn bases(prop: Option<&str>, framed_only: bool) -> Vec<Base> {
  let mut v = vec![];
  let from = refparse::parse(FRAME).unwrap().blocks.len();
  let framed = |b: &str| Base { doc: refparse::parse(&format!("{FRAME}{b}")).unwrap(), from };
  for b in BAD {
    let b = framed(b);
    if refsem::check(&b.doc).iter().any(|x| prop.is_none_or(|p| x.rule == p)) {
      v.push(b);
    }
  }
  for (p, g) in GOOD {
    let g = framed(g);
    assert_eq!(refsem::check(&g.doc), vec![]);
    if prop.is_none_or(|q| q == *p) {
      v.push(g);
    }
  }
  for o in OWN {
    let doc = refparse::parse(&format!("Project p {{ }} {o}")).unwrap();
    let rules: Vec<_> = refsem::check(&doc).iter().map(|x| x.rule).collect();
    let by_rule = |p: &str| rules.contains(&p) || rules.is_empty() && ["C14", "C15", "C16", "C17", "C18"].contains(&p);
    if prop.is_none_or(by_rule) {
      v.push(Base { doc, from: 0 });
    }
  }
  for t in gen::valid_docs().into_iter().filter(|_| !framed_only) {
    v.push(Base { doc: refparse::parse(t).unwrap(), from: 0 });
  }
  v
}

/// `edits` structural edits, all of the fragment but, if `anywhere`, the last
pub fn machine(prop: Option<&'static str>, edits: usize, anywhere: bool) -> M {
  let bases = bases(prop, edits > 1 && !anywhere);
  let about = format!(
    "{} documents (each with a single violation{}, in a frame; and valid ones), changed by every sequence of {edits} structural edits of the part in question{}",
    bases.len(),
    if prop.is_some() { " of this property" } else { "" },
    if anywhere { ", the last of anything" } else { "" }
  );
  M { prop: prop.unwrap_or("C19"), name: ["", "edits", "two-edits"][edits], about, bound: 0, gen: Box::new(move |ch| Some(print::print(&mut edited(ch, &bases, edits, anywhere)?, &print::airy))) }
}

fn edited(ch: &mut Ch, bases: &[Base], edits: usize, anywhere: bool) -> Option<Doc> {
  let b = ch.of(bases);
  let mut d = b.doc.clone();
  for k in 0..edits {
    let all = anywhere && k + 1 == edits;
    let from = if all { 0 } else { b.from.min(d.blocks.len()) };
    let mut e = Ed { want: usize::MAX, n: 0, pool: pool(&d) };
    edit(&mut e, &mut d, from, all); // counts
    if e.n == 0 {
      return None;
    }
    e.want = ch.free(e.n) + 1;
    e.n = 0;
    edit(&mut e, &mut d, from, all);
  }
  Some(d)
}

/// The syntax of documents `edits` structural edits away from known ones (most of them not semantically valid), in
/// one layout or, with the separators given, in several.
pub fn syntax(edits: usize, depth: oracle::Depth, seps: &'static [&'static str]) -> Space {
  let mut texts: Vec<String> = gen::small_docs().iter().chain(&gen::valid_docs()).chain(OWN).map(|t| t.to_string()).collect();
  texts.extend(GOOD.iter().map(|g| g.1.to_string()));
  texts.extend(BAD.iter().filter(|_| edits == 1).map(|b| b.to_string()));
  let bases: Vec<_> = texts.iter().map(|t| Base { doc: refparse::parse(t).unwrap(), from: 0 }).collect();
  let about = format!("{} documents, changed by every sequence of {edits} structural edits (one element added, removed, doubled, moved, renamed, retyped or given one more setting){}", bases.len(), if seps.is_empty() { String::new() } else { format!(", with each of {} separators in every gap", seps.len()) });
  Space::new(["", "edits", "two-edits"][edits], about, 0, move |ch, cx| {
    let Some(mut d) = edited(ch, &bases, edits, edits == 1) else { return };
    let t = if seps.is_empty() {
      print::print(&mut d, &print::airy)
    } else {
      let s = *ch.of(seps);
      print::print(&mut d, &|i, g| if super::lang::fits(g, s) { s } else { print::compact(i, g) })
    };
    if cx.case(&t) {
      oracle::syntax(cx, &t, depth)
    }
  })
}

/* ------------------------------------------------------------------ long lists */

/// puts items that have nothing to do with the rest at the front or the end of a list
fn put<T>(l: &mut Vec<T>, front: bool, it: impl Iterator<Item = T>) {
  let at = if front { 0 } else { l.len() };
  l.splice(at..at, it);
}

fn tables(k: usize, t: impl Fn(usize) -> String) -> Vec<Top> {
  refparse::parse(&(0..k).map(t).collect::<String>()).unwrap().blocks
}

/// Visits every list and makes the one with number `want` longer by `k`.
fn pad(e: &mut Ed, d: &mut Doc, k: usize, front: bool) -> bool {
  let sets = |s: &mut Option<Settings>, e: &mut Ed| {
    if let Some(s) = s {
      on!(e, put(&mut s.items, front, (0..k).map(|i| gen::attr(&format!("pad{i}"), None))));
    }
    false
  };
  let mut more: Vec<Top> = vec![];
  for b in &mut d.blocks {
    match b {
      Top::Table(t) => {
        go!(sets(&mut t.settings, e));
        on!(e, put(&mut t.body, front, (0..k).map(|i| column(&format!("pad{i}"), "int", &[]))));
        on!(e, put(&mut t.body, front, (0..k).map(|i| column(&format!("pad{i}"), "varchar(3)[]", &["unique", "not null"]))));
        on!(e, put(&mut t.body, front, (0..k).map(|i| gen::indexes(vec![gen::idx(vec![gen::ie(&format!("pad{i}"))], None)]))));
        on!(e, put(&mut t.body, front, (0..k).map(|i| TItem::Note(gen::note(i % 2 == 0, gen::sq("é"))))));
        for i in &mut t.body {
          match i {
            TItem::Col(c) => {
              go!(sets(&mut c.settings, e));
              on!(e, c.ty.raw += &"[]".repeat(k));
              if let Some(s) = &mut c.settings {
                if e.hit() {
                  put(&mut s.items, front, (0..k).map(|i| gen::iref(Rel::ManyMany, gen::rid(None, "pad", &[&format!("c{i}")]))));
                  let cols: String = (0..k).map(|i| format!("c{i} {} [unique]\n", c.ty.raw)).collect();
                  more = tables(1, |_| format!("Table pad {{ {cols} }}"));
                }
              }
            }
            TItem::Indexes(x) => {
              on!(e, put(&mut x.defs, front, (0..k).map(|i| gen::idx(vec![gen::ie(&format!("pad{i}"))], None))));
              on!(e, put(&mut x.defs, front, (0..k).map(|i| gen::idx(vec![gen::ie(&format!("pad{i}")), gen::ie("x")], gen::settings(vec![gen::attr("unique", None)])))));
              for x in &mut x.defs {
                go!(sets(&mut x.settings, e));
                on!(e, {
                  put(&mut x.cols, front, (0..k).map(|i| gen::ie(&format!("pad{i}"))));
                  x.multi = true;
                });
              }
            }
            TItem::Note(_) => (),
          }
        }
      }
      Top::Enum(x) => {
        on!(e, put(&mut x.values, front, (0..k).map(|i| gen::ev(&format!("pad{i}"), None))));
        for v in &mut x.values {
          go!(sets(&mut v.settings, e));
        }
      }
      Top::Ref(r) => go!(sets(&mut r.settings, e)),
      Top::Group(g) => {
        go!(sets(&mut g.settings, e));
        if e.hit() {
          put(&mut g.body, front, (0..k).map(|i| gen::gi(None, &format!("pad{i}"))));
          more = tables(k, |i| format!("Table pad{i} {{ }}\n"));
        }
      }
      Top::Project(p) => on!(e, put(&mut p.body, front, (0..k).map(|i| gen::prop(&format!("pad{i}"), gen::sq("é"))))),
      Top::Note(_) => (),
    }
  }
  if !more.is_empty() {
    d.blocks.extend(more);
    return true;
  }
  on!(e, put(&mut d.blocks, front, tables(k, |i| format!("Table pad{i} {{ a int }}\n")).into_iter()));
  on!(e, put(&mut d.blocks, front, tables(k, |i| format!("Table s.pad{i} as pal{i} {{ a int [pk, ref: - s.pad{i}.b] b int [unique] }}\n")).into_iter()));
  on!(e, put(&mut d.blocks, front, tables(k, |i| format!("Enum {}pad{i} {{ on off }}\n", ["", "s.", "s1."][i % 3])).into_iter()));
  on!(e, put(&mut d.blocks, front, tables(k, |i| format!("TableGroup pad{i} {{ }}\n")).into_iter()));
  on!(e, put(&mut d.blocks, front, tables(k, |_| "Note { 'é' }\n".to_string()).into_iter()));
  // relationships between other columns, in front of or behind all others
  on!(e, {
    let cols: String = (0..k).map(|i| format!("c{i} int [unique]\n")).collect();
    put(&mut d.blocks, front, tables(k, |i| format!("Ref: pad.c{i} > pad.k\n")).into_iter());
    d.blocks.extend(tables(1, |_| format!("Table pad {{ k int [pk] {cols} }}")));
  });
  false
}

/// each violation, and documents that keep every rule, with one list made long by things that do not matter
pub fn padded(prop: Option<&'static str>, level: usize) -> M {
  let bases = bases(prop, false);
  let sizes: &[usize] = [&[3, 40][..], &[1, 2, 3, 4, 6, 8, 12, 20, 40, 70, 130, 260], &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20, 25, 31, 32, 33, 49, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 1000, 1025]][level];
  let about = format!("{} documents (each with a single violation{}, in a frame; and valid ones), with any one list in them made longer by n unrelated items in front or behind, n in {sizes:?}", bases.len(), if prop.is_some() { " of this property" } else { "" });
  let gen = move |ch: &mut Ch| {
    let b = ch.of(&bases);
    let (k, front) = (*ch.of(sizes), ch.flag());
    let mut d = b.doc.clone();
    let mut e = Ed { want: usize::MAX, n: 0, pool: vec![] };
    pad(&mut e, &mut d, 1, front); // counts
    e.want = ch.free(e.n) + 1;
    e.n = 0;
    pad(&mut e, &mut d, k, front);
    Some(print::print(&mut d, &print::airy))
  };
  M { prop: prop.unwrap_or("C19"), name: "padded", about, bound: 0, gen: Box::new(gen) }
}

/// all documents, as far as they concern one property
pub fn of(prop: &'static str, deep: bool) -> Vec<Space> {
  [machine(Some(prop), 1, true), machine(Some(prop), 2, deep), padded(Some(prop), 1 + deep as usize)]
    .into_iter()
    .map(|m| {
      let M { name, about, bound, gen, .. } = m;
      Space::new(name, about, bound, move |ch, cx| {
        let Some(t) = gen(ch) else { return };
        if cx.case(&t) {
          oracle::rule(cx, &t, prop)
        }
      })
    })
    .collect()
}
