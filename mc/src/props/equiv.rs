//! C20 (equivalent spellings) and C21 (order, unrelated content). Rewritings of the mirror document; the
//! verdicts of the checked parser on the original and on the rewritten document are compared with each other.
use super::sem::{self, BAD, FRAME};
use crate::explore::{Cx, Space};
use crate::gen::*;
use crate::mirror::*;
use crate::print;
use crate::real::Res;
use crate::refparse;
use crate::refsem::{sch, tkey, Key, Model, PUBLIC, TYPES};

/* ------------------------------------------------------------------ verdicts */

fn verdict(cx: &mut Cx, t: &str) -> Result<bool, String> {
  match cx.checked(t) {
    Res::Ok(_) => Ok(true),
    Res::Err(e) if !e.custom => Err(format!("rejected by the grammar at {}..{}", e.a, e.b)),
    Res::Err(_) => Ok(false),
    Res::Panic(p) => Err(format!("panicked: {p}")),
  }
}

fn word(v: &Result<bool, String>) -> String {
  match v {
    Ok(true) => "accepted".into(),
    Ok(false) => "rejected".into(),
    Err(e) => e.clone(),
  }
}

fn text(d: &Doc) -> String {
  let mut d = d.clone();
  // one blank everywhere: a separator that never joins what was apart
  print::print(&mut d, &|i, g| match g {
    print::Gap::Glue => "",
    print::Gap::Word => "\n",
    _ => {
      if i % 7 == 3 {
        "\n"
      } else {
        " "
      }
    }
  })
}

/// the rewritten document against the verdict of the original
fn check(cx: &mut Cx, orig: &str, v: &Result<bool, String>, t: &str, what: &str) {
  if t == orig {
    return;
  }
  cx.input(t);
  cx.compared += 1;
  let w = verdict(cx, t);
  if *v != w {
    cx.fail(t, format!("{what}: {} before, now {}; before: {:?}", word(v), word(&w), orig));
  } else {
    cx.out(if *v == Ok(true) { "accepted, as before" } else { "rejected, as before" });
  }
}

/* ------------------------------------------------------------------ C20 */

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
  /// a table reference by another of its names
  Name,
  /// declaration with or without the public schema
  Decl,
  /// identifier quoted or not
  Quote,
  /// short or block notation
  Notation,
  /// sides exchanged
  Mirror,
  /// inline reference written as a Ref
  Outline,
  /// Ref written as an inline reference
  Inline,
  /// parentheses around one column
  Paren,
  /// a built-in type by a synonym, everywhere / in one column
  Synonyms,
  Synonym,
}
use Kind::*;
const KINDS: [Kind; 10] = [Name, Decl, Quote, Notation, Mirror, Outline, Inline, Paren, Synonyms, Synonym];

fn is_var(s: &str) -> bool {
  s.starts_with(|c: char| c.is_ascii_alphabetic()) && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
}

fn quotable(i: &mut Ident, pick: &mut dyn FnMut(Kind, usize) -> usize) {
  if !is_var(&i.text) || ["note", "indexes"].contains(&i.text.to_lowercase().as_str()) {
    return;
  }
  let quoted = format!("\"{}\"", i.text);
  if i.raw == i.text || i.raw == quoted {
    if pick(Quote, 2) == 1 {
      i.raw = if i.raw == quoted { i.text.clone() } else { quoted };
    }
  }
}

struct Names {
  aliases: Vec<(String, Key)>,
}

impl Names {
  fn of(d: &Doc) -> Self {
    let m = Model::new(d);
    let aliases: Vec<_> = m.tables.iter().filter_map(|t| t.alias.as_ref().map(|a| (a.text.clone(), tkey(t)))).collect();
    Names { aliases }
  }
  /// all (schema, name) that mean the same table as this one, itself first
  fn all(&self, schema: &Option<Ident>, name: &Ident) -> Vec<(Option<Ident>, Ident)> {
    let alias = |n: &str| self.aliases.iter().find(|a| a.0 == n).map(|a| a.1.clone());
    let key = match (schema, alias(&name.text)) {
      (None, Some(k)) => k,
      _ => (sch(schema), name.text.clone()),
    };
    let raw = |s: &str| {
      if is_var(s) {
        id(s)
      } else {
        id(&format!("\"{s}\""))
      }
    };
    let mut v = vec![(schema.clone(), name.clone())];
    let mut add = |x: (Option<Ident>, Ident)| {
      let same = |y: &(Option<Ident>, Ident)| y.0.as_ref().map(|i| &i.text) == x.0.as_ref().map(|i| &i.text) && y.1.text == x.1.text;
      if !v.iter().any(same) {
        v.push(x)
      }
    };
    add((Some(raw(&key.0)), raw(&key.1)));
    if key.0 == PUBLIC && alias(&key.1).is_none_or(|k| k == key) {
      add((None, raw(&key.1)));
    }
    for (a, k) in &self.aliases {
      if *k == key && alias(a).as_ref() == Some(k) {
        add((None, raw(a)));
      }
    }
    v
  }
  fn respell(&self, schema: &mut Option<Ident>, name: &mut Ident, pick: &mut dyn FnMut(Kind, usize) -> usize) {
    let v = self.all(schema, name);
    if v.len() > 1 {
      let (s, n) = v[pick(Name, v.len())].clone();
      *schema = s;
      *name = n;
    }
    if let Some(s) = schema {
      quotable(s, pick);
    }
    quotable(name, pick);
  }
}

fn end(r: &mut RefIdent, n: &Names, pick: &mut dyn FnMut(Kind, usize) -> usize) {
  n.respell(&mut r.schema, &mut r.table, pick);
  for c in &mut r.cols {
    quotable(c, pick);
  }
  if r.cols.len() == 1 && pick(Paren, 2) == 1 {
    r.paren = !r.paren;
  }
}

/// `raw` of a schema-less built-in type with another base name
fn rename(raw: &str, base: &str, new: &str) -> Option<String> {
  let inner = raw.strip_prefix('"').unwrap_or(raw);
  let rest = inner.strip_prefix(base)?;
  if raw.starts_with('"') {
    return Some(format!("\"{new}{rest}"));
  }
  if !new.contains(' ') {
    return Some(format!("{new}{rest}"));
  }
  (!rest.contains('"')).then(|| format!("\"{new}{rest}\""))
}

fn types(d: &mut Doc, pick: &mut dyn FnMut(Kind, usize) -> usize) {
  let cols = |d: &mut Doc, f: &mut dyn FnMut(&mut Type)| {
    for b in &mut d.blocks {
      if let Top::Table(t) = b {
        for i in &mut t.body {
          if let TItem::Col(c) = i {
            f(&mut c.ty)
          }
        }
      }
    }
  };
  for row in TYPES.iter().filter(|r| r.len() > 1) {
    let mut used = false;
    cols(d, &mut |t| used |= t.schema.is_none() && row.contains(&t.base.as_str()));
    if !used {
      continue;
    }
    let k = pick(Synonyms, row.len());
    cols(d, &mut |t| {
      if t.schema.is_none() && row.contains(&t.base.as_str()) {
        if k > 0 {
          let to = row[(row.iter().position(|x| *x == t.base).unwrap() + k) % row.len()];
          if let Some(r) = rename(&t.raw, &t.base, to) {
            t.raw = r;
            t.base = to.into();
            t.name = to.into();
          }
        }
        let k = pick(Synonym, row.len());
        if k > 0 {
          let to = row[(row.iter().position(|x| *x == t.base).unwrap() + k) % row.len()];
          if let Some(r) = rename(&t.raw, &t.base, to) {
            t.raw = r;
            t.base = to.into();
            t.name = to.into();
          }
        }
      }
    });
  }
  cols(d, &mut |t| {
    // enum types by the explicit public schema
    let builtin = crate::refsem::builtin(&t.base).is_some();
    if !builtin && t.schema.is_none() && pick(Name, 2) == 1 {
      t.raw = format!("public.{}", t.raw);
      t.schema = Some(PUBLIC.into());
    } else if !builtin && t.schema.as_deref() == Some(PUBLIC) {
      if let Some(r) = t.raw.strip_prefix("public.") {
        if pick(Name, 2) == 1 {
          t.raw = r.into();
          t.schema = None;
        }
      }
    }
    let q = if t.schema.is_none() { 0 } else { t.raw.find('.').map(|k| k + 1).unwrap_or(0) };
    let (pre, raw) = t.raw.split_at(q);
    if !raw.contains('"') {
      if pick(Quote, 2) == 1 {
        t.raw = format!("{pre}\"{raw}\"");
      }
    } else if is_var(&t.base) && raw.matches('"').count() == 2 && raw.starts_with(&format!("\"{}", t.base)) {
      if pick(Quote, 2) == 1 {
        t.raw = format!("{pre}{}", raw.replace('"', ""));
      }
    }
  });
}

/// The document rewritten: at each site `pick(kind, n)` says which of n spellings, 0 being the present one.
fn respell(d: &Doc, pick: &mut dyn FnMut(Kind, usize) -> usize) -> Doc {
  let names = Names::of(d);
  let mut d = d.clone();
  types(&mut d, pick);
  // inline references out of the tables, before the tables are respelled
  let mut out: Vec<Top> = vec![];
  for b in &mut d.blocks {
    let Top::Table(t) = b else { continue };
    let schema = t.schema.clone().unwrap_or(id(PUBLIC));
    for i in &mut t.body {
      let TItem::Col(c) = i else { continue };
      let Some(s) = &mut c.settings else { continue };
      let mut kept = vec![];
      for x in std::mem::take(&mut s.items) {
        match x {
          Item::Ref(r) => match pick(Outline, 3) {
            0 => kept.push(Item::Ref(r)),
            k => {
              let lhs = RefIdent { schema: Some(schema.clone()), table: t.name.clone(), cols: vec![c.name.clone()], paren: false, sp: Sp::default() };
              out.push(Top::Ref(Ref { block: k == 2, rel: r.rel, lhs, rhs: r.rhs, ..Default::default() }));
            }
          },
          x => kept.push(x),
        }
      }
      s.items = kept;
    }
  }
  d.blocks.extend(out);
  // endpoints, groups, declarations
  let keys: Vec<Key> = d.blocks.iter().filter_map(|b| if let Top::Table(t) = b { Some(tkey(t)) } else { None }).collect();
  let mut inline: Vec<(Key, String, InlineRef)> = vec![];
  let mut blocks = vec![];
  let declared: Vec<(Key, Vec<String>)> = d.blocks.iter().filter_map(|b| if let Top::Table(t) = b { Some((tkey(t), t.cols().map(|c| c.name.text.clone()).collect())) } else { None }).collect();
  for mut b in d.blocks {
    match &mut b {
      Top::Ref(r) => {
        if let Some(n) = &mut r.name {
          quotable(n, pick);
        }
        // as an inline reference of either side
        if r.name.is_none() && r.settings.is_none() && r.lhs.cols.len() == 1 {
          let key = match (&r.lhs.schema, names.aliases.iter().find(|a| a.0 == r.lhs.table.text)) {
            (None, Some(a)) => a.1.clone(),
            _ => (sch(&r.lhs.schema), r.lhs.table.text.clone()),
          };
          let col = r.lhs.cols[0].text.clone();
          let once = keys.iter().filter(|k| **k == key).count() == 1;
          let has = declared.iter().any(|(k, c)| *k == key && c.iter().filter(|x| **x == col).count() == 1);
          if once && has && pick(Inline, 2) == 1 {
            let mut rhs = r.rhs.clone();
            end(&mut rhs, &names, pick);
            inline.push((key, col, InlineRef { sp: Sp::default(), rel: r.rel, rhs }));
            continue;
          }
        }
        if pick(Mirror, 2) == 1 {
          std::mem::swap(&mut r.lhs, &mut r.rhs);
          r.rel = r.rel.mirror();
        }
        if pick(Notation, 2) == 1 {
          r.block = !r.block;
        }
        end(&mut r.lhs, &names, pick);
        end(&mut r.rhs, &names, pick);
      }
      Top::Table(t) => {
        for i in &mut t.body {
          match i {
            TItem::Col(c) => {
              quotable(&mut c.name, pick);
              for x in c.settings.iter_mut().flat_map(|s| &mut s.items) {
                if let Item::Ref(r) = x {
                  end(&mut r.rhs, &names, pick);
                }
              }
            }
            TItem::Indexes(x) => {
              for c in x.defs.iter_mut().flat_map(|d| &mut d.cols) {
                if let IdxCol::Id(i) = c {
                  quotable(i, pick);
                }
              }
            }
            _ => (),
          }
        }
        decl(&mut t.schema, &mut t.name, pick);
        if let Some(a) = &mut t.alias {
          quotable(a, pick);
        }
      }
      Top::Enum(e) => {
        decl(&mut e.schema, &mut e.name, pick);
        for v in &mut e.values {
          quotable(&mut v.value, pick);
        }
      }
      Top::Group(g) => {
        quotable(&mut g.ident, pick);
        for i in &mut g.body {
          if let GItem::Item(i) = i {
            names.respell(&mut i.schema, &mut i.name, pick);
          }
        }
      }
      Top::Project(p) => quotable(&mut p.ident, pick),
      Top::Note(_) => (),
    }
    blocks.push(b);
  }
  for (key, col, r) in inline {
    for b in &mut blocks {
      let Top::Table(t) = b else { continue };
      if tkey(t) != key {
        continue;
      }
      for i in &mut t.body {
        if let TItem::Col(c) = i {
          if c.name.text == col {
            c.settings.get_or_insert_with(Default::default).items.push(Item::Ref(r.clone()));
          }
        }
      }
    }
  }
  Doc { blocks, len: 0 }
}

fn decl(schema: &mut Option<Ident>, name: &mut Ident, pick: &mut dyn FnMut(Kind, usize) -> usize) {
  match schema {
    None => {
      if pick(Decl, 2) == 1 {
        *schema = Some(id(PUBLIC))
      }
    }
    Some(s) if s.text == PUBLIC => {
      if pick(Decl, 2) == 1 {
        *schema = None
      }
    }
    _ => (),
  }
  if let Some(s) = schema {
    quotable(s, pick);
  }
  quotable(name, pick);
}

/// documents around relationships, aliases, groups and enums, valid and not
pub fn bases() -> Vec<String> {
  let p = "Project p {}\n";
  let a = format!("{p}Table t as x {{ id int [pk] n int k int [unique] }}\nTable s.u as y {{ id int [pk] n integer [ref: > x.id] v int4 indexes {{ (id, n) [unique] }} }}\n");
  let e = format!("{p}Enum e {{ on off }}\nEnum s.e {{ on2 }}\n");
  let mut v: Vec<String> = vec![
    format!("{a}Ref: y.v > t.id\nTableGroup g {{ x s.u }}"),
    format!("{a}Ref: y.v > t.n\nTableGroup g {{ x y }}"),
    format!("{a}Ref: y.v - t.k\nRef: t.k - s.u.v"),
    format!("{a}Ref: y.v > t.id\nRef: x.id < s.u.v"),
    format!("{a}Ref: y.v <> t.k\nRef {{ s.u.id <> x.id }}"),
    format!("{a}Ref: y.id <> t.k\nRef {{ x.k <> s.u.id }}"),
    format!("{a}Ref: y.(id, n) < t.(n, k)"),
    format!("{a}Ref: y.(n, id) > t.(n, k)"),
    format!("{a}Ref: y.n < t.(n)\nRef: y.n > t.id"),
    format!("{a}Ref: public.t.n > s.u.id\nRef: t.k > zz.id"),
    format!("{a}Ref: t.n > public.x.id"),
    format!("{a}Ref: s.x.n > t.id"),
    format!("{a}TableGroup g {{ t x }}"),
    format!("{a}TableGroup g {{ public.t s.u }}\nTableGroup h {{ y t }}"),
    format!("{a}TableGroup g {{ s.u y }}"),
    format!("{a}TableGroup g {{ s.y }}"),
    format!("{p}Table s.t as u {{ id int [pk] b int [ref: - u.id] }}\nTable u {{ id bigint [pk] c int [unique] }}\nRef: public.u.c > u.id"),
    format!("{p}Table s.t as u {{ id int [pk] }}\nTable u {{ id bigint [pk] c bigint [ref: > u.id] }}"),
    format!("{p}Table t {{ id int [pk] a int [ref: > t.id, ref: > t.id] }}"),
    format!("{p}Table t {{ id int [pk] a int [ref: > t.id] b int [ref: < t.id] }}"),
    format!("{p}Table t {{ id int [pk] a varchar(3) [unique] }}\nTable u {{ b \"character varying(3)\" [ref: > t.a] c character(3) c2 char(3) [ref: - t.a] }}"),
    format!("{p}Table t {{ a numeric(3,1)[] [unique] b timestamptz(3) [unique] }}\nTable u {{ a decimal(3,1)[] [ref: > t.a] b \"timestamp with time zone(3)\" [ref: > t.b] }}"),
    format!("{p}Table t {{ a float8 [default: 1.5] b bool [default: true] c int2 [default: 32767] d serial4 e \"double precision\" [default: 2] f boolean [default: 'x'] }}"),
    format!("{p}Table t {{ a smallint [default: 32768] }}"),
    format!("{p}Table t {{ a \"bit varying(2)\" [default: '012'] }}"),
    format!("{e}Table t {{ a e [default: on] b s.e [default: on2] c public.e [default: 'off', unique] }}\nTable u {{ d e [ref: > t.c] }}"),
    format!("{e}Table t {{ a e [default: on2] }}"),
    format!("{e}Table t {{ a e [unique] b s.e [ref: > t.a] }}"),
    format!("{e}Table t {{ a public.e [unique] b e [ref: - t.a] }}\nEnum public.f {{ x }}"),
    format!("{e}Enum public.e {{ on }}"),
    format!("{a}Table public.t {{ }}"),
    format!("{a}Table z as x {{ }}"),
    format!("{a}Table x {{ id int }}\nRef: x.id < y.v"),
    format!("{p}Table a {{ id int [pk] }}\nTable b {{ id int [pk] a1 int [ref: > a.id] a2 int }}\nTable c {{ id int [pk] b1 int [unique] }}\nRef: b.a2 > a.id\nRef r {{ c.b1 - b.id }}\nTableGroup g {{ a b c }}"),
  ];
  v.extend(valid_docs().iter().map(|s| s.to_string()));
  v.push(FRAME.to_string());
  v.push(format!("{FRAME}Ref: x.n > s.u.a\nRef: s.u.(a, b) < t.(n, m)\nTable f {{ a e [default: on] b int [ref: - y.a] }}"));
  v.extend(BAD.iter().map(|b| format!("{FRAME}{b}")));
  let mut k = kitchen_sink();
  v.push(airy(&mut k));
  v
}

/// the machines of C10-C18; the quick tier leaves out the biggest
fn machines(deep: bool, out: &[&str]) -> Vec<sem::M> {
  let mut v = sem::all(deep as usize);
  if !deep {
    v.retain(|m| !out.contains(&format!("{}/{}", m.prop, m.name).as_str()));
    for m in &mut v {
      m.bound = 0;
    }
  }
  v
}

pub fn c20(deep: bool) -> Vec<Space> {
  let docs: Vec<Doc> = bases().iter().filter_map(|t| refparse::parse(t)).collect();
  let n = docs.len();
  let mut v = vec![Space::new("subsets", format!("{n} documents, valid and not x every set of up to 2 (thorough: 3 in the documents up to 500 bytes) respellings of their parts"), if deep { 3 } else { 2 }, move |ch, cx| {
    let d = ch.of(&docs);
    let orig = text(d);
    let small = orig.len() < 500;
    let mut used = 0;
    let x = respell(d, &mut |_, n| {
      if !small && used == 2 {
        return 0;
      }
      let k = ch.dev(n);
      used += (k > 0) as usize;
      k
    });
    let t = text(&x);
    if cx.case(&t) {
      let v = verdict(cx, &orig);
      check(cx, &orig, &v, &t, "respelt");
    }
  })];
  for m in machines(deep, &["C12/two", "C12/three", "C12/permutations", "C13/strings", "C15/one-end", "C17/mixed"]) {
    let slim = ["C10", "C11", "C12", "C13"].contains(&m.prop);
    let gen = m.gen;
    v.push(Space::new(format!("{}/{}", m.prop, m.name), format!("{}: every document, each kind of respelling everywhere at once, each pair of two kinds (mirrored and otherwise), all kinds", m.about), m.bound, move |ch, cx| {
      let Some(t) = gen(ch) else { return };
      if !cx.case(&t) {
        return;
      }
      let Some(d) = refparse::parse(&t) else { return };
      let orig = text(&d);
      let v = verdict(cx, &t);
      check(cx, &t, &v, &orig, "printed again");
      let mut done = vec![t.clone(), orig];
      let mut go = |cx: &mut Cx, what: String, f: &mut dyn FnMut(Kind, usize) -> usize| {
        let x = text(&respell(&d, f));
        if !done.contains(&x) {
          check(cx, &t, &v, &x, &what);
          done.push(x);
        }
      };
      for k in if slim { &[Quote, Decl, Synonyms, Synonym][..] } else { &KINDS[..] } {
        for alt in 1..if *k == Name { 4 } else { 3 } {
          go(cx, format!("{k:?} {alt} everywhere"), &mut |x, n| if x == *k { alt % n } else { 0 });
        }
        if !slim {
          // every other site only
          let mut i = 0;
          go(cx, format!("{k:?} at every other site"), &mut |x, n| {
            i += (x == *k) as usize;
            if x == *k && i % 2 == 0 { 1 % n } else { 0 }
          });
        }
      }
      if !slim {
        go(cx, "all kinds".into(), &mut |x, n| if x == Inline || x == Outline { 0 } else { 1 % n });
        go(cx, "all kinds, inline".into(), &mut |x, n| if x == Outline { 0 } else { 1 % n });
        go(cx, "all kinds, outline".into(), &mut |x, n| if x == Inline { 0 } else { 1 % n });
        go(cx, "mirrored and outlined".into(), &mut |x, n| if x == Outline || x == Mirror { 1 % n } else { 0 });
        go(cx, "named otherwise and mirrored".into(), &mut |x, n| if x == Name || x == Mirror { 1 % n } else { 0 });
        go(cx, "named otherwise and inlined".into(), &mut |x, n| if x == Name || x == Inline { (n - 1).min(2) } else { 0 });
      }
    }));
  }
  v
}

/* ------------------------------------------------------------------ C21 */

/// permutation k of 0..n; 0 is the identity. All of them up to 4 (thorough: 5), else a family.
fn perms(n: usize, all: usize) -> Vec<Vec<usize>> {
  let id: Vec<usize> = (0..n).collect();
  let mut v = vec![id.clone()];
  if n <= all {
    fn rec(left: &mut Vec<usize>, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
      if left.is_empty() {
        out.push(cur.clone());
      }
      for i in 0..left.len() {
        let x = left.remove(i);
        cur.push(x);
        rec(left, cur, out);
        cur.pop();
        left.insert(i, x);
      }
    }
    v.clear();
    rec(&mut id.clone(), &mut vec![], &mut v);
    return v;
  }
  v.push(id.iter().rev().copied().collect());
  for k in [1, n / 2, n - 1] {
    v.push((0..n).map(|i| (i + k) % n).collect());
  }
  for i in 0..n {
    for j in i + 1..n {
      if n <= 10 || j == i + 1 || i == 0 || j == n - 1 {
        let mut p = id.clone();
        p.swap(i, j);
        v.push(p);
      }
    }
  }
  // each one moved to the front and to the end
  for i in 1..n {
    let mut p = id.clone();
    let x = p.remove(i);
    p.insert(0, x);
    v.push(p);
    let mut p = id.clone();
    let x = p.remove(i - 1);
    p.push(x);
    v.push(p);
  }
  v.dedup();
  v
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum What {
  Blocks,
  Columns,
  Indexes,
  Values,
  Items,
  Settings,
}
use What::{Blocks, Columns, Indexes, Items, Settings as Lists, Values};

fn by<T: Clone>(v: &mut Vec<T>, p: &[usize]) {
  *v = p.iter().map(|i| v[*i].clone()).collect();
}

/// `pick(what, n)` gives the new order of a list of n
fn reorder(d: &Doc, pick: &mut dyn FnMut(What, usize) -> Vec<usize>) -> Doc {
  let mut d = d.clone();
  let set = |s: &mut Option<Settings>, pick: &mut dyn FnMut(What, usize) -> Vec<usize>| {
    if let Some(s) = s {
      if s.items.len() > 1 {
        let p = pick(Lists, s.items.len());
        by(&mut s.items, &p);
      }
    }
  };
  for b in &mut d.blocks {
    match b {
      Top::Table(t) => {
        set(&mut t.settings, pick);
        let at: Vec<usize> = (0..t.body.len()).filter(|i| matches!(t.body[*i], TItem::Col(_))).collect();
        for i in &mut t.body {
          match i {
            TItem::Col(c) => set(&mut c.settings, pick),
            TItem::Indexes(x) => {
              for d in &mut x.defs {
                set(&mut d.settings, pick);
              }
              if x.defs.len() > 1 {
                let p = pick(Indexes, x.defs.len());
                by(&mut x.defs, &p);
              }
            }
            _ => (),
          }
        }
        if at.len() > 1 {
          let p = pick(Columns, at.len());
          let old: Vec<_> = at.iter().map(|i| t.body[*i].clone()).collect();
          for (k, i) in at.iter().enumerate() {
            t.body[*i] = old[p[k]].clone();
          }
        }
      }
      Top::Enum(e) => {
        for v in &mut e.values {
          set(&mut v.settings, pick);
        }
        if e.values.len() > 1 {
          let p = pick(Values, e.values.len());
          by(&mut e.values, &p);
        }
      }
      Top::Ref(r) => set(&mut r.settings, pick),
      Top::Group(g) => {
        set(&mut g.settings, pick);
        let at: Vec<usize> = (0..g.body.len()).filter(|i| matches!(g.body[*i], GItem::Item(_))).collect();
        if at.len() > 1 {
          let p = pick(Items, at.len());
          let old: Vec<_> = at.iter().map(|i| g.body[*i].clone()).collect();
          for (k, i) in at.iter().enumerate() {
            g.body[*i] = old[p[k]].clone();
          }
        }
      }
      _ => (),
    }
  }
  if d.blocks.len() > 1 {
    let p = pick(Blocks, d.blocks.len());
    by(&mut d.blocks, &p);
  }
  d
}

/// valid parts that nothing else in any document refers to
const UNRELATED: &[&str] = &[
  "Table zz1 { zz int [pk] }",
  "Table zz_s.zz1 as zz_a { zz int [unique] zy int [ref: > zz_a.zz] indexes { (zz, zy) [pk] } }",
  "Table s.zz1 { a int id int }",
  "Enum zz1 { a on }",
  "Enum s.zz1 { a }",
  "TableGroup zz1 { }",
  "Note { 'zz' }",
  "Table zz1 as zz_a { id int [pk] a int n int }\nTable zz2 { b int }\nRef: zz2.b > zz_a.id\nTableGroup zz1 { zz2 zz_a }",
  "Enum zz1 { on off }\nTable zz2 { a zz1 [default: on] b zz1[] c \"zz1\" [null, default: null] }",
];

/// blocks of which small documents are put together; names overlap on purpose
const PARTS: &[&str] = &[
  "Project p {}",
  "Table t { id int [pk] n int }",
  "Table t as x { id int [unique] n int indexes { (id, n) [pk] } }",
  "Table s.t as t { id bigint [pk] n int }",
  "Table u as y { id int [pk] r int [ref: > t.id] }",
  "Table u { id int r int [ref: - x.id] e e [default: on] }",
  "Table s.u { n s.e [default: a, unique] e e [ref: > s.u.n] }",
  "Enum e { on a }",
  "Enum s.e { a }",
  "Enum public.e { b }",
  "Ref: t.n > u.id",
  "Ref: u.id < x.n",
  "Ref r { public.t.n > public.u.id [delete: cascade] }",
  "Ref: s.t.id - t.id",
  "Ref: u.id <> t.id",
  "Ref: t.id <> y.id",
  "TableGroup g { t u }",
  "TableGroup g { x }",
  "TableGroup h { s.t public.t }",
  "Note: 'n'",
  "Project q { a: 1 }",
  "Table x { id int [unique] }",
];

pub fn c21(deep: bool) -> Vec<Space> {
  let mut base = bases();
  base.extend([
    "Project p {}\nTable t [a, b: 1, note: 'x'] { a int [pk, increment, note: 'a'] b int [unique, null, default: 1] c int [ref: > t.a, ref: - t.b] indexes { a b (a, b) (b, a) [unique] a [type: hash] c [unique] } }",
    "Project p {}\nTable t { a int b int c int indexes { (a, b) [unique] (c) [unique, name: 'x', note: 'y'] (b, a) [unique] } }",
    "Project p {}\nTable t { a int [pk] b int [unique] c int indexes { (a, b) b [unique] c [pk] } }",
    "Project p {}\nTable t { a int [null, pk, unique] b int [not null, unique, null] }",
    "Project p {}\nEnum e { a [note: 'x', k] b c }\nTable t { x e [default: c, null, unique] y e [null, default: d] }",
    "Project p {}\nTable a {}\nTable b {}\nTable c {}\nTable d {}\nTableGroup g [note: 'n', k: 1] { a b Note: 'x' c d }",
    "Project p {}\nTable a {}\nTable b {}\nTableGroup g { a b public.a }",
    "Project p {}\nTable a { id int [pk] }\nTable b { x int y int [ref: > a.id] }\nRef: b.x > a.id [delete: cascade, update: restrict, k: 1]\nRef: b.y > a.id",
  ].map(String::from));
  let docs: Vec<Doc> = base.iter().filter_map(|t| refparse::parse(t)).collect();
  let (d1, d2) = (docs.clone(), docs);
  let n = d1.len();
  let all = if deep { 5 } else { 4 };
  let mut v = vec![
    Space::new("lists", format!("{n} documents, valid and not x every reordering of up to 2 of their lists (blocks, columns, index definitions, values, items, settings): all orders up to {all} elements, else reversal, rotations, exchanges and moves to either end"), 2, move |ch, cx| {
      let d = ch.of(&d1);
      let orig = text(d);
      let x = reorder(d, &mut |_, n| {
        let p = perms(n, all);
        ch.devof(&p).clone()
      });
      let t = text(&x);
      if cx.case(&t) {
        let v = verdict(cx, &orig);
        check(cx, &orig, &v, &t, "reordered");
      }
    }),
    Space::new("block-sets", format!("every subset of up to {} of {} blocks with overlapping names, in every order", if deep { 5 } else { 4 }, PARTS.len()), 0, move |ch, cx| {
      let mut at = 0;
      let mut set = vec![];
      for _ in 0..if deep { 5 } else { 4 } {
        // next larger index, or stop
        let k = ch.free(PARTS.len() - at + 1);
        if k == PARTS.len() - at {
          break;
        }
        set.push(PARTS[at + k]);
        at += k + 1;
      }
      if set.is_empty() {
        return;
      }
      if ch.flag() && !set[0].starts_with("Project") {
        set.push("Project z {}");
      }
      let orig = set.join("\n");
      if !cx.case(&orig) {
        return;
      }
      let v = verdict(cx, &orig);
      for p in perms(set.len(), 6) {
        let t = p.iter().map(|i| set[*i]).collect::<Vec<_>>().join("\n");
        check(cx, &orig, &v, &t, "blocks in another order");
      }
    }),
    Space::new("unrelated", format!("{n} documents x every insertion of one or two of {} unrelated parts between blocks", UNRELATED.len()), 2, move |ch, cx| {
      let d = ch.of(&d2);
      let orig = text(d);
      let mut t = String::new();
      let mut used = vec![];
      for i in 0..=d.blocks.len() {
        let k = ch.dev(UNRELATED.len() + 1);
        if k > 0 {
          if used.contains(&k) || used.len() == 2 {
            return;
          }
          used.push(k);
          // a second part gets names of its own
          let s = UNRELATED[k - 1];
          t += &if used.len() == 2 { s.replace("zz", "yy") } else { s.to_string() };
          t += "\n";
        }
        if i < d.blocks.len() {
          t += &text(&Doc { blocks: vec![d.blocks[i].clone()], len: 0 });
          t += "\n";
        }
      }
      if !used.is_empty() && cx.case(&t) {
        let v = verdict(cx, &orig);
        check(cx, &orig, &v, &t, "unrelated parts added");
      }
    }),
  ];
  for m in machines(deep, &["C12/three", "C12/permutations", "C13/strings", "C13/types", "C15/one-end"]) {
    let gen = m.gen;
    v.push(Space::new(format!("{}/{}", m.prop, m.name), format!("{}: every document, each kind of list reversed and rotated everywhere, all lists reversed, three unrelated parts added", m.about), m.bound, move |ch, cx| {
      let Some(t) = gen(ch) else { return };
      if !cx.case(&t) {
        return;
      }
      let Some(d) = refparse::parse(&t) else { return };
      let v = verdict(cx, &t);
      let mut done = vec![t.clone(), text(&d)];
      let mut go = |cx: &mut Cx, what: String, f: &mut dyn FnMut(What, usize) -> Vec<usize>| {
        let x = text(&reorder(&d, f));
        if !done.contains(&x) {
          check(cx, &t, &v, &x, &what);
          done.push(x);
        }
      };
      for w in [Blocks, Columns, Indexes, Values, Items, Lists] {
        go(cx, format!("{w:?} reversed"), &mut |x, n| if x == w { (0..n).rev().collect() } else { (0..n).collect() });
        go(cx, format!("{w:?} rotated"), &mut |x, n| if x == w { (0..n).map(|i| (i + 1) % n).collect() } else { (0..n).collect() });
      }
      go(cx, "all lists reversed".into(), &mut |_, n| (0..n).rev().collect());
      check(cx, &t, &v, &format!("{}\n{t}\n{}", UNRELATED[1], UNRELATED[3].replace("zz", "yy")), "unrelated parts around it");
      check(cx, &t, &v, &format!("{t}\n{}\n{}", UNRELATED[7], UNRELATED[2].replace("zz", "yy")), "unrelated parts after it");
      check(cx, &t, &v, &format!("{}\n{}\n{t}", UNRELATED[8], UNRELATED[6]), "unrelated parts before it");
    }));
  }
  v
}
