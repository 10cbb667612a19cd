//! Canonical dumps of the real AST and of the mirror AST: a skeleton string (everything but spans) and the
//! list of spans in the same visiting order. Two documents agree iff the skeletons are equal and each real
//! span fits the mirror span.
use crate::mirror::*;
use dbml_rs::ast;

#[derive(Default)]
pub struct Sink {
  pub s: String,
  /// start, end, greatest end
  pub sp: Vec<(usize, usize, usize)>,
  /// include raw text of column types (false when layouts are compared)
  pub type_raw: bool,
  pub nest: bool,
  pub errs: Vec<String>,
  stack: Vec<(usize, usize)>,
  last_end: Vec<usize>,
}

impl Sink {
  pub fn new() -> Self {
    Sink { type_raw: true, ..Default::default() }
  }
  pub fn clear(&mut self) {
    self.s.clear();
    self.sp.clear();
    self.errs.clear();
    self.stack.clear();
    self.last_end.clear();
  }
  fn t(&mut self, s: &str) {
    self.s.push_str(s);
  }
  fn str(&mut self, s: &str) {
    use std::fmt::Write;
    let _ = write!(self.s, "{}:", s.len());
    self.s.push_str(s);
    self.s.push(' ');
  }
  fn b(&mut self, name: &str, v: bool) {
    self.s.push_str(name);
    self.s.push_str(if v { "=1 " } else { "=0 " });
  }
  fn open(&mut self, a: usize, b: usize, bx: usize) {
    self.sp.push((a, b, bx));
    if self.nest {
      if a > b {
        self.errs.push(format!("span {a}..{b} is reversed"));
      }
      if let Some(&(pa, pb)) = self.stack.last() {
        if a < pa || b > pb {
          self.errs.push(format!("span {a}..{b} is outside its parent's {pa}..{pb}"));
        }
      }
      if let Some(l) = self.last_end.last_mut() {
        if a < *l {
          self.errs.push(format!("span {a}..{b} overlaps or precedes its elder sibling, which ends at {l}"));
        }
        *l = b;
      }
      self.stack.push((a, b));
      self.last_end.push(a);
    }
  }
  fn close(&mut self) {
    self.stack.pop();
    self.last_end.pop();
  }
  /// following children are not ordered after the previous ones
  fn reset(&mut self) {
    if self.nest {
      let a = self.stack.last().map(|x| x.0).unwrap_or(0);
      if let Some(l) = self.last_end.last_mut() {
        *l = a;
      }
    }
  }
  fn oi(&mut self, r: &std::ops::Range<usize>) {
    self.open(r.start, r.end, r.end);
  }
  fn om(&mut self, s: &Sp) {
    self.open(s.a, s.b, s.bx);
  }
}

/* ---------------------------------------------------------------- real AST */

fn r_ident(k: &mut Sink, i: &ast::Ident) {
  k.oi(&i.span_range);
  k.t("id ");
  k.str(&i.raw);
  k.str(&i.to_string);
  k.close();
}
fn r_oident(k: &mut Sink, i: &Option<ast::Ident>) {
  match i {
    Some(i) => r_ident(k, i),
    None => k.t("- "),
  }
}
fn r_val(k: &mut Sink, v: &ast::Value) {
  match v {
    ast::Value::Enum(s) => {
      k.t("en ");
      k.str(s)
    }
    ast::Value::String(s) => {
      k.t("st ");
      k.str(s)
    }
    ast::Value::Integer(i) => k.t(&format!("int {i} ")),
    ast::Value::Decimal(d) => k.t(&format!("dec {:x} ", d.to_bits())),
    ast::Value::Bool(b) => k.b("bool", *b),
    ast::Value::HexColor(s) => {
      k.t("hex ");
      k.str(s)
    }
    ast::Value::Expr(s) => {
      k.t("ex ");
      k.str(s)
    }
    ast::Value::Null => k.t("null "),
  }
}
fn r_lit(k: &mut Sink, l: &ast::Literal) {
  k.oi(&l.span_range);
  k.str(&l.raw);
  r_val(k, &l.value);
  k.close();
}
fn r_attr(k: &mut Sink, a: &ast::Attribute) {
  k.oi(&a.span_range);
  k.t("attr(");
  r_ident(k, &a.key);
  match &a.value {
    Some(v) => r_lit(k, v),
    None => k.t("- "),
  }
  k.t(")");
  k.close();
}
fn r_attrs(k: &mut Sink, a: &[ast::Attribute]) {
  k.t("[");
  for x in a {
    r_attr(k, x)
  }
  k.t("]");
  k.reset();
}
fn r_ostr(k: &mut Sink, name: &str, v: &Option<String>) {
  k.t(name);
  match v {
    Some(s) => {
      k.t("+");
      k.str(s)
    }
    None => k.t("- "),
  }
}
fn r_rel(k: &mut Sink, r: &ast::Relation) {
  k.t(match r {
    ast::Relation::One2One => "- ",
    ast::Relation::One2Many => "< ",
    ast::Relation::Many2One => "> ",
    ast::Relation::Many2Many => "<> ",
    _ => "undef ",
  })
}
fn r_rident(k: &mut Sink, r: &ast::RefIdent) {
  k.oi(&r.span_range);
  k.t("rid(");
  r_oident(k, &r.schema);
  r_ident(k, &r.table);
  k.t("[");
  for c in &r.compositions {
    r_ident(k, c)
  }
  k.t("])");
  k.close();
}
fn r_act(k: &mut Sink, name: &str, a: &Option<ast::ReferentialAction>) {
  k.t(name);
  k.t(match a {
    None => "- ",
    Some(ast::ReferentialAction::NoAction) => "+no action ",
    Some(ast::ReferentialAction::Cascade) => "+cascade ",
    Some(ast::ReferentialAction::Restrict) => "+restrict ",
    Some(ast::ReferentialAction::SetNull) => "+set null ",
    Some(ast::ReferentialAction::SetDefault) => "+set default ",
  })
}
fn r_note(k: &mut Sink, n: &Option<ast::NoteBlock>) {
  match n {
    None => k.t("nonote "),
    Some(n) => {
      k.oi(&n.span_range);
      k.t("note(");
      r_lit(k, &n.value);
      k.t(")");
      k.close();
    }
  }
}
fn r_col(k: &mut Sink, c: &ast::TableColumn) {
  k.oi(&c.span_range);
  k.t("col(");
  r_ident(k, &c.name);
  let t = &c.r#type;
  k.oi(&t.span_range);
  k.t("ty(");
  if k.type_raw {
    k.str(&t.raw);
  }
  match &t.type_name {
    ast::ColumnTypeName::Raw(s) => k.str(s),
    o => k.t(&format!("NOT-RAW {o:?}")),
  }
  for a in &t.args {
    r_val(k, a)
  }
  k.t("|");
  for a in &t.arrays {
    match a {
      Some(n) => k.t(&format!("[{n}]")),
      None => k.t("[]"),
    }
  }
  k.t(")");
  k.close();
  match &c.settings {
    None => k.t("-"),
    Some(s) => {
      k.oi(&s.span_range);
      k.t("set(");
      r_attrs(k, &s.attributes);
      k.b("pk", s.is_pk);
      k.b("uq", s.is_unique);
      k.t(match s.nullable {
        None => "n- ",
        Some(ast::Nullable::Null) => "n+ ",
        Some(ast::Nullable::NotNull) => "n! ",
      });
      k.b("inc", s.is_incremental);
      r_ostr(k, "note", &s.note);
      match &s.default {
        None => k.t("def- "),
        Some(v) => {
          k.t("def+ ");
          r_val(k, v)
        }
      }
      for r in &s.refs {
        k.oi(&r.span_range);
        k.t("ref(");
        r_rel(k, &r.rel);
        r_rident(k, &r.rhs);
        k.t(")");
        k.close();
      }
      k.t(")");
      k.close();
    }
  }
  k.t(")");
  k.close();
}
fn r_table(k: &mut Sink, t: &ast::TableBlock) {
  k.oi(&t.span_range);
  k.t("table(");
  k.oi(&t.ident.span_range);
  r_oident(k, &t.ident.schema);
  r_ident(k, &t.ident.name);
  k.close();
  r_oident(k, &t.ident.alias);
  match &t.settings {
    None => k.t("-"),
    Some(s) => {
      k.oi(&s.span_range);
      r_attrs(k, &s.attributes);
      k.close();
    }
  }
  k.t("{");
  for c in &t.cols {
    r_col(k, c)
  }
  k.t("}");
  k.reset();
  r_note(k, &t.note);
  k.reset();
  match &t.indexes {
    None => k.t("noidx"),
    Some(x) => {
      k.oi(&x.span_range);
      k.t("idx(");
      for d in &x.defs {
        k.oi(&d.span_range);
        k.t("def(");
        for c in &d.cols {
          match c {
            ast::IndexesColumnType::String(i) => r_ident(k, i),
            ast::IndexesColumnType::Expr(l) => {
              k.t("expr ");
              r_lit(k, l)
            }
          }
        }
        match &d.settings {
          None => k.t("-"),
          Some(s) => {
            k.oi(&s.span_range);
            r_attrs(k, &s.attributes);
            k.t(match s.r#type {
              None => "t- ",
              Some(ast::IndexesType::BTree) => "btree ",
              Some(ast::IndexesType::Gin) => "gin ",
              Some(ast::IndexesType::Gist) => "gist ",
              Some(ast::IndexesType::Hash) => "hash ",
            });
            k.b("uq", s.is_unique);
            k.b("pk", s.is_pk);
            r_ostr(k, "note", &s.note);
            r_ostr(k, "name", &s.name);
            k.close();
          }
        }
        k.t(")");
        k.close();
      }
      k.t(")");
      k.close();
    }
  }
  k.t(")");
  k.close();
}

pub fn real_block(k: &mut Sink, b: &ast::TopLevelBlock) {
  match b {
    ast::TopLevelBlock::Project(p) => {
      k.oi(&p.span_range);
      k.t("project(");
      r_ident(k, &p.ident);
      for x in &p.properties {
        k.oi(&x.span_range);
        k.t("prop(");
        r_ident(k, &x.key);
        r_lit(k, &x.value);
        k.t(")");
        k.close();
      }
      match &p.database_type {
        None => k.t("db- "),
        Some(ast::DatabaseType::PostgreSQL) => k.t("db=PG "),
        Some(ast::DatabaseType::Unknown(s)) => {
          k.t("db? ");
          k.str(s)
        }
      }
      k.reset();
      r_note(k, &p.note);
      k.t(")");
      k.close();
    }
    ast::TopLevelBlock::Table(t) => r_table(k, t),
    ast::TopLevelBlock::TableGroup(g) => {
      k.oi(&g.span_range);
      k.t("group(");
      r_ident(k, &g.ident);
      match &g.settings {
        None => k.t("-"),
        Some(s) => {
          k.oi(&s.span_range);
          r_attrs(k, &s.attributes);
          k.close();
        }
      }
      for i in &g.items {
        k.oi(&i.span_range);
        k.t("item(");
        r_oident(k, &i.schema);
        r_ident(k, &i.ident_alias);
        k.t(")");
        k.close();
      }
      k.reset();
      r_note(k, &g.note);
      k.t(")");
      k.close();
    }
    ast::TopLevelBlock::Note(n) => {
      k.oi(&n.span_range);
      k.t("topnote(");
      r_lit(k, &n.value);
      k.t(")");
      k.close();
    }
    ast::TopLevelBlock::Ref(r) => {
      // the stored range is that of the relation statement; the name stands before it
      match &r.name {
        Some(i) => {
          k.t("named ");
          r_ident(k, i)
        }
        None => k.t("anon "),
      }
      k.oi(&r.span_range);
      k.t("ref(");
      r_rident(k, &r.lhs);
      r_rel(k, &r.rel);
      r_rident(k, &r.rhs);
      match &r.settings {
        None => k.t("-"),
        Some(s) => {
          k.oi(&s.span_range);
          r_attrs(k, &s.attributes);
          r_act(k, "del", &s.on_delete);
          r_act(k, "upd", &s.on_update);
          k.close();
        }
      }
      k.t(")");
      k.close();
    }
    ast::TopLevelBlock::Enum(e) => {
      k.oi(&e.span_range);
      k.t("enum(");
      k.oi(&e.ident.span_range);
      r_oident(k, &e.ident.schema);
      r_ident(k, &e.ident.name);
      k.close();
      for v in &e.values {
        k.oi(&v.span_range);
        k.t("val(");
        r_ident(k, &v.value);
        match &v.settings {
          None => k.t("-"),
          Some(s) => {
            k.oi(&s.span_range);
            r_attrs(k, &s.attributes);
            r_ostr(k, "note", &s.note);
            k.close();
          }
        }
        k.t(")");
        k.close();
      }
      k.t(")");
      k.close();
    }
  }
}

pub fn real(k: &mut Sink, d: &ast::SchemaBlock) {
  k.oi(&d.span_range);
  for b in &d.blocks {
    real_block(k, b);
    k.t("\n");
  }
  k.close();
}

/* ---------------------------------------------------------------- mirror AST */

fn m_ident(k: &mut Sink, i: &Ident) {
  k.om(&i.sp);
  k.t("id ");
  k.str(&i.raw);
  k.str(&i.text);
  k.close();
}
fn m_oident(k: &mut Sink, i: &Option<Ident>) {
  match i {
    Some(i) => m_ident(k, i),
    None => k.t("- "),
  }
}
fn m_val(k: &mut Sink, v: &Val) {
  match v {
    Val::Enum(s) => {
      k.t("en ");
      k.str(s)
    }
    Val::Str(s) => {
      k.t("st ");
      k.str(s)
    }
    Val::Int(i) => k.t(&format!("int {i} ")),
    Val::Dec(d) => k.t(&format!("dec {:x} ", d.to_bits())),
    Val::Bool(b) => k.b("bool", *b),
    Val::Hex(s) => {
      k.t("hex ");
      k.str(s)
    }
    Val::Expr(s) => {
      k.t("ex ");
      k.str(s)
    }
    Val::Null => k.t("null "),
  }
}
fn m_lit(k: &mut Sink, l: &Lit) {
  k.om(&l.sp);
  k.str(&l.raw);
  m_val(k, &l.val);
  k.close();
}
fn m_attrs(k: &mut Sink, s: &Settings) {
  k.t("[");
  for a in s.attrs() {
    k.om(&a.sp);
    k.t("attr(");
    m_ident(k, &a.key);
    match &a.val {
      Some(v) => m_lit(k, v),
      None => k.t("- "),
    }
    k.t(")");
    k.close();
  }
  k.t("]");
}
fn m_ostr(k: &mut Sink, name: &str, v: Option<String>) {
  k.t(name);
  match v {
    Some(s) => {
      k.t("+");
      k.str(&s)
    }
    None => k.t("- "),
  }
}
fn m_rident(k: &mut Sink, r: &RefIdent) {
  k.om(&r.sp);
  k.t("rid(");
  m_oident(k, &r.schema);
  m_ident(k, &r.table);
  k.t("[");
  for c in &r.cols {
    m_ident(k, c)
  }
  k.t("])");
  k.close();
}
fn m_note(k: &mut Sink, n: Option<&Note>) {
  match n {
    None => k.t("nonote "),
    Some(n) => {
      k.om(&n.sp);
      k.t("note(");
      m_lit(k, &n.lit);
      k.t(")");
      k.close();
    }
  }
}
fn m_osettings(k: &mut Sink, s: &Option<Settings>) {
  match s {
    None => k.t("-"),
    Some(s) => {
      k.om(&s.sp);
      m_attrs(k, s);
      k.close();
    }
  }
}
fn m_rel(k: &mut Sink, r: Rel) {
  k.t(r.sym());
  k.t(" ");
}
fn m_col(k: &mut Sink, c: &Col) {
  k.om(&c.sp);
  k.t("col(");
  m_ident(k, &c.name);
  let t = &c.ty;
  k.om(&t.sp);
  k.t("ty(");
  if k.type_raw {
    k.str(&t.raw);
  }
  k.str(&t.name);
  for a in &t.args {
    m_val(k, a)
  }
  k.t("|");
  for a in &t.arrays {
    match a {
      Some(n) => k.t(&format!("[{n}]")),
      None => k.t("[]"),
    }
  }
  k.t(")");
  k.close();
  match &c.settings {
    None => k.t("-"),
    Some(s) => {
      k.om(&s.sp);
      k.t("set(");
      m_attrs(k, s);
      k.b("pk", s.is_pk_col());
      k.b("uq", s.has("unique"));
      k.t(match s.nullable() {
        None => "n- ",
        Some(true) => "n+ ",
        Some(false) => "n! ",
      });
      k.b("inc", s.has("increment"));
      m_ostr(k, "note", s.last_val("note").map(|v| v.text()));
      match s.last_val("default") {
        None => k.t("def- "),
        Some(v) => {
          k.t("def+ ");
          m_val(k, v)
        }
      }
      for r in s.refs() {
        k.om(&r.sp);
        k.t("ref(");
        m_rel(k, r.rel);
        m_rident(k, &r.rhs);
        k.t(")");
        k.close();
      }
      k.t(")");
      k.close();
    }
  }
  k.t(")");
  k.close();
}
fn m_table(k: &mut Sink, t: &Table) {
  k.om(&t.sp);
  k.t("table(");
  k.om(&t.ident_sp);
  m_oident(k, &t.schema);
  m_ident(k, &t.name);
  k.close();
  m_oident(k, &t.alias);
  m_osettings(k, &t.settings);
  k.t("{");
  for c in t.cols() {
    m_col(k, c)
  }
  k.t("}");
  m_note(k, t.note());
  match t.indexes() {
    None => k.t("noidx"),
    Some(x) => {
      k.om(&x.sp);
      k.t("idx(");
      for d in &x.defs {
        k.om(&d.sp);
        k.t("def(");
        for c in &d.cols {
          match c {
            IdxCol::Id(i) => m_ident(k, i),
            IdxCol::Expr(l) => {
              k.t("expr ");
              m_lit(k, l)
            }
          }
        }
        match &d.settings {
          None => k.t("-"),
          Some(s) => {
            k.om(&s.sp);
            m_attrs(k, s);
            match s.last_val("type") {
              None => k.t("t- "),
              Some(v) => {
                k.t(&v.text());
                k.t(" ")
              }
            }
            k.b("uq", s.has("unique"));
            k.b("pk", s.has("pk"));
            m_ostr(k, "note", s.last_val("note").map(|v| v.text()));
            m_ostr(k, "name", s.last_val("name").map(|v| v.text()));
            k.close();
          }
        }
        k.t(")");
        k.close();
      }
      k.t(")");
      k.close();
    }
  }
  k.t(")");
  k.close();
}

fn m_act(k: &mut Sink, name: &str, v: Option<&Val>) {
  k.t(name);
  match v {
    Some(Val::Enum(s)) => {
      k.t("+");
      k.t(s);
      k.t(" ")
    }
    _ => k.t("- "),
  }
}

pub fn mirror_block(k: &mut Sink, b: &Top) {
  match b {
    Top::Project(p) => {
      k.om(&p.sp);
      k.t("project(");
      m_ident(k, &p.ident);
      for x in p.props() {
        k.om(&x.sp);
        k.t("prop(");
        m_ident(k, &x.key);
        m_lit(k, &x.val);
        k.t(")");
        k.close();
      }
      match p.props().filter(|x| x.key.text == "database_type").filter_map(|x| if let Val::Str(s) = &x.val.val { Some(s) } else { None }).last() {
        None => k.t("db- "),
        Some(s) if s == "PostgreSQL" => k.t("db=PG "),
        Some(s) => {
          k.t("db? ");
          k.str(s)
        }
      }
      m_note(k, p.note());
      k.t(")");
      k.close();
    }
    Top::Table(t) => m_table(k, t),
    Top::Group(g) => {
      k.om(&g.sp);
      k.t("group(");
      m_ident(k, &g.ident);
      m_osettings(k, &g.settings);
      for i in g.items() {
        k.om(&i.sp);
        k.t("item(");
        m_oident(k, &i.schema);
        m_ident(k, &i.name);
        k.t(")");
        k.close();
      }
      m_note(k, g.note());
      k.t(")");
      k.close();
    }
    Top::Note(n) => {
      k.om(&n.sp);
      k.t("topnote(");
      m_lit(k, &n.lit);
      k.t(")");
      k.close();
    }
    Top::Ref(r) => {
      match &r.name {
        Some(i) => {
          k.t("named ");
          m_ident(k, i)
        }
        None => k.t("anon "),
      }
      k.om(&r.sp);
      k.t("ref(");
      m_rident(k, &r.lhs);
      m_rel(k, r.rel);
      m_rident(k, &r.rhs);
      match &r.settings {
        None => k.t("-"),
        Some(s) => {
          k.om(&s.sp);
          m_attrs(k, s);
          m_act(k, "del", s.last_val("delete"));
          m_act(k, "upd", s.last_val("update"));
          k.close();
        }
      }
      k.t(")");
      k.close();
    }
    Top::Enum(e) => {
      k.om(&e.sp);
      k.t("enum(");
      k.om(&e.ident_sp);
      m_oident(k, &e.schema);
      m_ident(k, &e.name);
      k.close();
      for v in &e.values {
        k.om(&v.sp);
        k.t("val(");
        m_ident(k, &v.value);
        match &v.settings {
          None => k.t("-"),
          Some(s) => {
            k.om(&s.sp);
            m_attrs(k, s);
            m_ostr(k, "note", s.last_val("note").map(|v| v.text()));
            k.close();
          }
        }
        k.t(")");
        k.close();
      }
      k.t(")");
      k.close();
    }
  }
}

pub fn mirror(k: &mut Sink, d: &Doc) {
  k.open(0, d.len, d.len);
  for b in &d.blocks {
    mirror_block(k, b);
    k.t("\n");
  }
  k.close();
}
