//! Reference semantic checker: every rule a document breaks, with message and place.
//! Written from the rules in DESIGN.md ("The rules"), one function per rule, no shared state between rules.
use crate::mirror::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub struct Viol {
  /// the property it breaks
  pub rule: &'static str,
  pub msg: String,
  pub sp: Sp,
}

pub const PUBLIC: &str = "public";

pub type Key = (String, String);

pub fn sch(s: &Option<Ident>) -> String {
  s.as_ref().map(|s| s.text.clone()).unwrap_or(PUBLIC.into())
}

/// one relationship, inline or not
pub struct R<'a> {
  pub sp: Sp,
  pub rel: Rel,
  pub lhs: End<'a>,
  pub rhs: End<'a>,
  pub settings: Option<&'a Settings>,
  pub inline: bool,
}
pub struct End<'a> {
  pub sp: Sp,
  /// schema span as reported (0..0 when omitted)
  pub schema_sp: Sp,
  pub table_sp: Sp,
  pub key: Key,
  pub cols: Vec<&'a Ident>,
}

pub struct Model<'a> {
  pub d: &'a Doc,
  pub tables: Vec<&'a Table>,
  pub enums: Vec<&'a Enum>,
  pub groups: Vec<&'a Group>,
  pub projects: Vec<&'a Project>,
  pub aliases: BTreeMap<String, Key>,
  pub refs: Vec<R<'a>>,
}

pub fn tkey(t: &Table) -> Key {
  (sch(&t.schema), t.name.text.clone())
}

impl<'a> Model<'a> {
  pub fn new(d: &'a Doc) -> Self {
    let mut m = Model { d, tables: vec![], enums: vec![], groups: vec![], projects: vec![], aliases: BTreeMap::new(), refs: vec![] };
    for b in &d.blocks {
      match b {
        Top::Table(t) => m.tables.push(t),
        Top::Enum(t) => m.enums.push(t),
        Top::Group(t) => m.groups.push(t),
        Top::Project(t) => m.projects.push(t),
        _ => (),
      }
    }
    for t in &m.tables {
      if let Some(a) = &t.alias {
        m.aliases.entry(a.text.clone()).or_insert(tkey(t));
      }
    }
    for b in &d.blocks {
      if let Top::Ref(r) = b {
        let x = R { sp: r.sp, rel: r.rel, lhs: m.end(&r.lhs), rhs: m.end(&r.rhs), settings: r.settings.as_ref(), inline: false };
        m.refs.push(x);
      }
    }
    let mut inl = vec![];
    for t in &m.tables {
      for c in t.cols() {
        for r in c.settings.iter().flat_map(|s| s.refs()) {
          let lhs = End { sp: r.sp, schema_sp: Sp::default(), table_sp: t.name.sp, key: tkey(t), cols: vec![&c.name] };
          inl.push(R { sp: r.sp, rel: r.rel, lhs, rhs: m.end(&r.rhs), settings: None, inline: true });
        }
      }
    }
    m.refs.extend(inl);
    m
  }

  fn end(&self, r: &'a RefIdent) -> End<'a> {
    let cols = r.cols.iter().collect();
    match &r.schema {
      Some(s) => End { sp: r.sp, schema_sp: s.sp, table_sp: r.table.sp, key: (s.text.clone(), r.table.text.clone()), cols },
      None => match self.aliases.get(&r.table.text) {
        // an alias always resolves to a declared table; the places below can only matter for its columns
        Some(k) => End { sp: r.sp, schema_sp: r.sp, table_sp: r.sp, key: k.clone(), cols },
        None => End { sp: r.sp, schema_sp: Sp::default(), table_sp: r.table.sp, key: (PUBLIC.into(), r.table.text.clone()), cols },
      },
    }
  }
  pub fn table(&self, k: &Key) -> Option<&'a Table> {
    self.tables.iter().find(|t| tkey(t) == *k).copied()
  }
  pub fn schema_exists(&self, s: &str) -> bool {
    self.tables.iter().any(|t| sch(&t.schema) == s) || self.enums.iter().any(|t| sch(&t.schema) == s)
  }
}

/* ------------------------------------------------------------------ types */

/// canonical spelling of a built-in type
pub fn builtin(s: &str) -> Option<&'static str> {
  for row in TYPES {
    if row.contains(&s) {
      return Some(row[0]);
    }
  }
  None
}

/// built-in types; synonyms in one row
pub const TYPES: &[&[&str]] = &[
  &["bit"],
  &["varbit", "bit varying"],
  &["char", "character"],
  &["varchar", "character varying"],
  &["box"],
  &["cidr"],
  &["circle"],
  &["inet"],
  &["line"],
  &["lseg"],
  &["macaddr"],
  &["macaddr8"],
  &["money"],
  &["path"],
  &["pg_lsn"],
  &["pg_snapshot"],
  &["point"],
  &["polygon"],
  &["tsquery"],
  &["tsvector"],
  &["smallserial", "serial2"],
  &["serial", "serial4"],
  &["bigserial", "serial8"],
  &["smallint", "int2"],
  &["integer", "int", "int4"],
  &["bigint", "int8"],
  &["real", "float4"],
  &["double precision", "float8"],
  &["bool", "boolean"],
  &["bytea"],
  &["date"],
  &["text"],
  &["time", "time without time zone"],
  &["timetz", "time with time zone"],
  &["timestamp", "timestamp without time zone"],
  &["timestamptz", "timestamp with time zone"],
  &["uuid"],
  &["json"],
  &["jsonb"],
  &["decimal", "numeric"],
  &["xml"],
];

pub fn n_args(t: &str) -> usize {
  match t {
    "char" | "varchar" | "bit" | "varbit" | "time" | "timetz" | "timestamp" | "timestamptz" => 1,
    "decimal" => 2,
    _ => 0,
  }
}

/// what two related columns must share
fn type_id(t: &Type) -> String {
  match builtin(&t.name) {
    Some(b) => b.to_string(),
    None => format!("enum {:?} {:?}", t.schema.as_deref().unwrap_or(PUBLIC), t.base),
  }
}

/* ------------------------------------------------------------------ rules */

type Out = Vec<Viol>;
fn v(o: &mut Out, msg: impl Into<String>, sp: Sp) {
  o.push(Viol { rule: "", msg: msg.into(), sp })
}

fn dup_by<T, K: Ord>(it: impl Iterator<Item = T>, key: impl Fn(&T) -> K, mut hit: impl FnMut(T)) {
  let mut seen = BTreeSet::new();
  for x in it {
    if !seen.insert(key(&x)) {
      hit(x)
    }
  }
}

fn dup_attrs(o: &mut Out, s: &Option<Settings>) {
  if let Some(s) = s {
    dup_by(s.attrs(), |a| a.key.text.clone(), |a| v(o, "Duplicate attribute key", a.sp));
  }
}

fn names(o: &mut Out, m: &Model) {
  let whole = Sp { a: 0, b: m.d.len, bx: m.d.len };
  match m.projects.len() {
    0 => v(o, "Project setting not found", whole),
    1 => (),
    _ => v(o, "Duplicate project setting", whole),
  }
  for p in &m.projects {
    dup_by(p.props(), |x| x.key.text.clone(), |x| v(o, "Duplicate property key", x.sp));
  }
  dup_by(m.tables.iter(), |t| tkey(t), |t| v(o, "Duplicate table name", t.ident_sp));
  dup_by(m.enums.iter(), |t| (sch(&t.schema), t.name.text.clone()), |t| v(o, "Duplicate enum name", t.ident_sp));
  dup_by(m.tables.iter().filter_map(|t| t.alias.as_ref()), |a| a.text.clone(), |a| v(o, "Duplicate alias", a.sp));
  dup_by(m.groups.iter(), |g| g.ident.text.clone(), |g| v(o, "Duplicate table group name", g.ident.sp));
  for t in &m.tables {
    dup_attrs(o, &t.settings);
    dup_by(t.cols(), |c| c.name.text.clone(), |c| v(o, "Duplicate column name", c.sp));
    for c in t.cols() {
      dup_attrs(o, &c.settings);
    }
    for d in t.indexes().iter().flat_map(|x| &x.defs) {
      dup_attrs(o, &d.settings);
    }
  }
  for e in &m.enums {
    dup_by(e.values.iter(), |x| x.value.text.clone(), |x| v(o, "Duplicate enum value", x.sp));
    for x in &e.values {
      dup_attrs(o, &x.settings);
    }
  }
  for g in &m.groups {
    dup_attrs(o, &g.settings);
  }
  for b in &m.d.blocks {
    if let Top::Ref(r) = b {
      dup_attrs(o, &r.settings);
    }
  }
}

fn groups(o: &mut Out, m: &Model) {
  for g in &m.groups {
    let mut seen = BTreeSet::new();
    for i in g.items() {
      let key = match (&i.schema, m.aliases.get(&i.name.text)) {
        (None, Some(k)) => k.clone(),
        _ => (sch(&i.schema), i.name.text.clone()),
      };
      if m.table(&key).is_none() {
        v(o, "Table not found", i.sp);
      }
      if !seen.insert(key) {
        v(o, "Duplicate table group item", i.sp);
      }
    }
  }
}

fn keys(o: &mut Out, t: &Table) {
  let mut pk = 0;
  for c in t.cols() {
    let Some(s) = &c.settings else { continue };
    if s.is_pk_col() {
      pk += 1;
      if pk > 1 {
        v(o, "Duplicate primary key", c.sp);
      }
      if s.has("null") {
        v(o, "Nullable primary key: a nullable primary is not allowed", c.sp);
      }
      if !c.ty.arrays.is_empty() {
        v(o, "Array primary key: an array with primary is not allowed", c.sp);
      }
    }
    if s.has("null") && s.has("not null") {
      v(o, "Conflict nullable setting: 'null' and 'not null' must not appear within the same setting", s.sp);
    }
  }
  for d in t.indexes().iter().flat_map(|x| &x.defs) {
    if d.settings.as_ref().is_some_and(|s| s.has("pk")) {
      pk += 1;
      if pk > 1 {
        v(o, "Duplicate primary key", d.sp);
      }
    }
  }
}

fn ikey(c: &IdxCol) -> (bool, String) {
  match c {
    IdxCol::Id(i) => (false, i.text.clone()),
    IdxCol::Expr(l) => (true, l.val.text()),
  }
}

fn indexes(o: &mut Out, t: &Table) {
  let Some(x) = t.indexes() else { return };
  // unique sets: columns' own first
  let mut uniq: Vec<BTreeSet<(bool, String)>> = t
    .cols()
    .filter(|c| c.settings.as_ref().is_some_and(|s| s.has("unique")))
    .map(|c| BTreeSet::from([(false, c.name.text.clone())]))
    .collect();
  let mut typed: Vec<(Vec<(bool, String)>, String)> = vec![];
  let mut plain: Vec<Vec<(bool, String)>> = vec![];
  for d in &x.defs {
    if d.cols.is_empty() {
      v(o, "Empty indexes block", x.sp);
    }
    for c in &d.cols {
      if let IdxCol::Id(i) = c {
        if !t.cols().any(|c| c.name.text == i.text) {
          v(o, "Column not found", i.sp);
        }
      }
    }
    let list: Vec<_> = d.cols.iter().map(ikey).collect();
    let Some(s) = &d.settings else {
      if plain.contains(&list) {
        v(o, "Duplicate index key", d.sp);
      }
      plain.push(list);
      continue;
    };
    let ty = s.last("type").and_then(|a| a.val.as_ref()).map(|l| l.val.text());
    let n = s.has("pk") as u8 + s.has("unique") as u8 + ty.is_some() as u8;
    if n > 1 {
      v(o, "Invalid indexes setting: can specify either 'pk', 'unique', or 'type' within a setting", s.sp);
    }
    if s.has("unique") {
      let set: BTreeSet<_> = list.iter().cloned().collect();
      if uniq.contains(&set) {
        v(o, "Duplicate unique key", d.sp);
      }
      uniq.push(set);
    }
    if let Some(ty) = ty {
      let k = (list, ty);
      if typed.contains(&k) {
        v(o, "Duplicate index key", d.sp);
      }
      typed.push(k);
    }
  }
}

fn types(o: &mut Out, m: &Model, t: &Table) {
  for c in t.cols() {
    let b = builtin(&c.ty.name);
    let def = c.settings.as_ref().and_then(|s| s.last_val("default"));
    let def_sp = c.settings.as_ref().and_then(|s| s.first_val_span("default")).unwrap_or_default();
    if let Some(b) = b {
      if !c.ty.args.is_empty() {
        let n = n_args(b);
        if c.ty.args.len() != n {
          v(o, format!("Invalid data type arguments: '{}' requires only {} argument(s)", c.ty.name, n), c.ty.sp);
        }
        if !c.ty.args.iter().all(|a| matches!(a, Val::Int(_))) {
          v(o, "Invalid argument value: the value for the argument is not integer", c.ty.sp);
        }
      }
    } else if let Some(d) = def {
      let s = c.ty.schema.clone().unwrap_or(PUBLIC.into());
      match m.enums.iter().find(|e| sch(&e.schema) == s && e.name.text == c.ty.base) {
        None if !m.schema_exists(&s) => v(o, "Schema not found", c.ty.sp),
        None => v(o, "Enum not found", c.ty.sp),
        Some(e) => {
          let free = matches!(d, Val::Null | Val::Expr(_));
          if !free && !e.values.iter().any(|x| x.value.text == d.text()) {
            v(o, "Enum value not found", def_sp);
          }
        }
      }
    }
    let Some(d) = def else { continue };
    let assoc = |x: &str| format!("Invalid default value: the defualt value '{}' is not associated with '{}'", x, c.ty.raw);
    match (d, b) {
      (Val::Str(s), Some("char" | "bit" | "varchar" | "varbit")) => {
        if let Some(Val::Int(n)) = c.ty.args.first() {
          let len = s.chars().count() as i64;
          let ok = if matches!(b, Some("char" | "bit")) { len == *n } else { len <= *n };
          if !ok {
            v(o, assoc(s), def_sp);
          }
        }
      }
      (Val::Int(i), Some("smallint")) if *i > i16::MAX as i64 => v(o, exceeded(c), def_sp),
      (Val::Int(i), Some("integer")) if *i > i32::MAX as i64 => v(o, exceeded(c), def_sp),
      (Val::Bool(x), b) if b != Some("bool") => v(o, assoc(&x.to_string()), def_sp),
      (Val::Null, _) if c.settings.as_ref().unwrap().nullable() != Some(true) => {
        v(o, "Default null in non-nullable: the default value cannot be null in non-nullable field", def_sp)
      }
      _ => (),
    }
  }
}
fn exceeded(c: &Col) -> String {
  format!("Data type exceeded: the default value exceeds the maximum value of '{}'", c.ty.raw)
}

fn set(e: &End) -> BTreeSet<String> {
  e.cols.iter().map(|c| c.text.clone()).collect()
}

fn is_key(t: &Table, e: &End) -> bool {
  let want = set(e);
  let own = e.cols.len() == 1
    && t.cols().any(|c| c.name.text == e.cols[0].text && c.settings.as_ref().is_some_and(|s| s.is_pk_col() || s.has("unique")));
  own
    || t.indexes().iter().flat_map(|x| &x.defs).any(|d| {
      d.settings.as_ref().is_some_and(|s| s.has("pk") || s.has("unique"))
        && d.cols.len() == e.cols.len()
        && d.cols.iter().all(|c| matches!(c, IdxCol::Id(_)))
        && d.cols.iter().map(|c| ikey(c).1).collect::<BTreeSet<_>>() == want
    })
}

fn resolve<'a>(o: &mut Out, m: &Model<'a>, e: &End) -> Option<&'a Table> {
  match m.table(&e.key) {
    None => {
      if m.schema_exists(&e.key.0) {
        v(o, "Table not found", e.table_sp);
      } else {
        v(o, "Schema not found", e.schema_sp);
      }
      None
    }
    Some(t) => {
      let mut ok = true;
      for c in &e.cols {
        if !t.cols().any(|x| x.name.text == c.text) {
          v(o, "Column not found", c.sp);
          ok = false;
        }
      }
      ok.then_some(t)
    }
  }
}

fn refs(o: &mut Out, m: &Model) {
  for r in &m.refs {
    if r.lhs.cols.len() != r.rhs.cols.len() {
      v(o, "Mismatched composite foreign key", r.sp);
    }
    let (l, rt) = (resolve(o, m, &r.lhs), resolve(o, m, &r.rhs));
    let (Some(lt), Some(rt)) = (l, rt) else { continue };
    for (a, b) in r.lhs.cols.iter().zip(&r.rhs.cols) {
      let ca = lt.cols().find(|c| c.name.text == a.text).unwrap();
      let cb = rt.cols().find(|c| c.name.text == b.text).unwrap();
      if type_id(&ca.ty) != type_id(&cb.ty) || ca.ty.args != cb.ty.args || ca.ty.arrays != cb.ty.arrays {
        v(
          o,
          format!(
            "Mismatched foreign key type: '{}': '{}' (left) and '{}': '{}' (right) are incompatible",
            a.text, ca.ty.raw, b.text, cb.ty.raw
          ),
          r.sp,
        );
      }
    }
    if r.lhs.cols.len() != r.rhs.cols.len() {
      continue;
    }
    let comp = r.lhs.cols.len() > 1;
    let (lk, rk) = (is_key(lt, &r.lhs), is_key(rt, &r.rhs));
    let one = if comp {
      "the referenced column is neither a composite primary key or a composite unique key"
    } else {
      "the referenced column is neither a primary key or a unique key"
    };
    let fk = |s: &str| format!("Invalid foreign key: {s}");
    match r.rel {
      Rel::OneMany if !lk => v(o, fk(one), r.lhs.sp),
      Rel::ManyOne if !rk => v(o, fk(one), r.rhs.sp),
      Rel::OneOne if !lk && !rk => v(
        o,
        fk(if comp {
          "either side of the composite one-to-one relation must be a composite primary key or a composite unique key"
        } else {
          "either side of the one-to-one relation must be a primary key or a unique key"
        }),
        r.sp,
      ),
      Rel::ManyMany if !lk || !rk => v(
        o,
        fk(if comp {
          "both sides of the composite many-to-many relation must be either a composite primary key or a composite unique key"
        } else {
          "both sides of the many-to-many relation must be a primary key or a unique key"
        }),
        r.sp,
      ),
      _ => (),
    }
  }
}

fn conflicts(o: &mut Out, m: &Model) {
  let id = |e: &End| (e.key.clone(), set(e));
  for (i, a) in m.refs.iter().enumerate() {
    for (j, b) in m.refs.iter().enumerate() {
      if i == j {
        continue;
      }
      let (al, ar, bl, br) = (id(&a.lhs), id(&a.rhs), id(&b.lhs), id(&b.rhs));
      let many = |r: Rel, l: &(Key, BTreeSet<String>), x: &(Key, BTreeSet<String>)| match r {
        Rel::ManyOne => Some(l.clone()),
        Rel::OneMany => Some(x.clone()),
        _ => None,
      };
      let hit = match (a.rel, b.rel) {
        (Rel::OneOne, Rel::OneOne) | (Rel::ManyMany, Rel::ManyMany) => {
          (al == bl && ar == br) || (al == br && ar == bl)
        }
        _ => {
          let (x, y) = (many(a.rel, &al, &ar), many(b.rel, &bl, &br));
          x.is_some() && x == y
        }
      };
      if hit {
        v(o, "Conflict relation", a.sp);
        break;
      }
    }
  }
}

/// Every violated rule of a document; empty iff the checked parser must accept it.
pub fn check(d: &Doc) -> Vec<Viol> {
  let m = Model::new(d);
  let mut o = vec![];
  let tag = |o: &mut Out, rule: &'static str| o.iter_mut().filter(|x| x.rule.is_empty()).for_each(|x| x.rule = rules(&x.msg, rule));
  names(&mut o, &m);
  tag(&mut o, "C10");
  groups(&mut o, &m);
  tag(&mut o, "C18");
  for t in &m.tables {
    keys(&mut o, t);
    tag(&mut o, "C11");
    indexes(&mut o, t);
    tag(&mut o, "C12");
    types(&mut o, &m, t);
    tag(&mut o, "C13");
  }
  refs(&mut o, &m);
  tag(&mut o, "C16");
  conflicts(&mut o, &m);
  tag(&mut o, "C17");
  o
}

/// types and references are checked for two properties each
fn rules(msg: &str, rule: &'static str) -> &'static str {
  match rule {
    "C13" if msg.contains("not found") => "C14",
    "C16" if msg.contains("not found") => "C15",
    r => r,
  }
}

/// the properties a message of the checked parser can belong to
pub fn about(msg: &str) -> &'static [&'static str] {
  let head = msg.split(':').next().unwrap_or("");
  match head {
    "Project setting not found" | "Duplicate project setting" | "Duplicate property key" | "Duplicate table name" | "Duplicate enum name" | "Duplicate alias" | "Duplicate table group name" | "Duplicate column name" | "Duplicate enum value" | "Duplicate attribute key" => &["C10"],
    "Duplicate primary key" | "Nullable primary key" | "Array primary key" | "Conflict nullable setting" => &["C11"],
    "Empty indexes block" | "Invalid indexes setting" | "Duplicate unique key" | "Duplicate index key" => &["C12"],
    "Invalid data type arguments" | "Invalid argument value" | "Invalid default value" | "Data type exceeded" | "Default null in non-nullable" => &["C13"],
    "Enum not found" | "Enum value not found" => &["C14"],
    "Schema not found" => &["C14", "C15"],
    "Table not found" => &["C15", "C18"],
    "Column not found" => &["C12", "C15"],
    "Mismatched composite foreign key" | "Mismatched foreign key type" | "Invalid foreign key" => &["C16"],
    "Conflict relation" => &["C17"],
    "Duplicate table group item" => &["C18"],
    // no rule at all: everyone's
    _ => &["C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18"],
  }
}
