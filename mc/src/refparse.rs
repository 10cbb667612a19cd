//! Reference recogniser: a hand-written scannerless recursive-descent parser for DBML, written from the
//! language description (DESIGN.md, "The language"), sharing no code with the crate under test.
//! `parse` returns the mirror AST, with spans, or None if the text is not DBML.
use crate::mirror::*;

pub struct P<'a> {
  s: &'a str,
  b: &'a [u8],
  i: usize,
  /// set when a syntactically fine construct has an illegal value (number too large, unknown action, ...)
  bad: bool,
}

type R<T> = Option<T>;

pub fn skip_trivia(s: &str, from: usize) -> usize {
  let b = s.as_bytes();
  let mut i = from;
  loop {
    match b.get(i) {
      Some(b' ' | b'\t' | b'\n' | b'\r') => i += 1,
      Some(b'/') if b.get(i + 1) == Some(&b'/') => {
        while i < b.len() && b[i] != b'\n' && b[i] != b'\r' {
          i += 1
        }
      }
      Some(b'/') if b.get(i + 1) == Some(&b'*') => match s[i + 2..].find("*/") {
        Some(k) => i += 2 + k + 2,
        None => return i,
      },
      _ => return i,
    }
  }
}

impl<'a> P<'a> {
  fn new(s: &'a str) -> Self {
    P { s, b: s.as_bytes(), i: 0, bad: false }
  }
  fn skip(&mut self) {
    self.i = skip_trivia(self.s, self.i)
  }
  fn peek(&self) -> u8 {
    *self.b.get(self.i).unwrap_or(&0)
  }
  fn at_end(&self) -> bool {
    self.i >= self.b.len()
  }
  /// literal at the current position
  fn lit(&mut self, t: &str) -> R<()> {
    if self.b[self.i.min(self.b.len())..].starts_with(t.as_bytes()) {
      self.i += t.len();
      Some(())
    } else {
      None
    }
  }
  fn ilit(&mut self, t: &str) -> R<()> {
    let e = self.i + t.len();
    if e <= self.b.len() && self.b[self.i..e].eq_ignore_ascii_case(t.as_bytes()) {
      self.i = e;
      Some(())
    } else {
      None
    }
  }
  /// skip, then literal
  fn sl(&mut self, t: &str) -> R<()> {
    self.skip();
    self.lit(t)
  }
  /// try f; restore the position on failure
  fn opt<T>(&mut self, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
    let (i, bad) = (self.i, self.bad);
    let r = f(self);
    if r.is_none() {
      self.i = i;
      self.bad = bad;
    }
    r
  }
  /// block keyword followed by one whitespace character
  fn kw(&mut self, t: &str) -> R<()> {
    self.ilit(t)?;
    match self.peek() {
      b' ' | b'\t' | b'\n' | b'\r' if !self.at_end() => {
        self.i += 1;
        Some(())
      }
      _ => None,
    }
  }
  fn sp(&self, a: usize) -> Sp {
    Sp { a, b: self.i, bx: self.i }
  }
  /// span whose optional tail is missing: may extend over trivia
  fn spx(&self, a: usize) -> Sp {
    Sp { a, b: self.i, bx: skip_trivia(self.s, self.i) }
  }

  fn is_w(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_'
  }
  fn var(&mut self) -> R<Ident> {
    let a = self.i;
    if !self.peek().is_ascii_alphabetic() {
      return None;
    }
    while Self::is_w(self.peek()) {
      self.i += 1
    }
    let t = self.s[a..self.i].to_string();
    Some(Ident { sp: self.sp(a), raw: t.clone(), text: t })
  }
  fn spaced_var(&mut self) -> R<Ident> {
    let a = self.i;
    if !self.peek().is_ascii_alphabetic() {
      return None;
    }
    self.i += 1;
    loop {
      if Self::is_w(self.peek()) {
        self.i += 1
      } else if self.peek() == b' ' && Self::is_w(*self.b.get(self.i + 1).unwrap_or(&0)) {
        self.i += 2
      } else {
        break;
      }
    }
    let t = self.s[a..self.i].to_string();
    Some(Ident { sp: self.sp(a), raw: t.clone(), text: t })
  }
  /// quoted text: returns the value (leading whitespace removed)
  fn quoted(&mut self, q: &str) -> R<String> {
    self.lit(q)?;
    let rest = &self.s[self.i..];
    let body = rest.trim_start_matches([' ', '\t', '\n', '\r']);
    let k = body.find(q)?;
    let v = body[..k].to_string();
    self.i += rest.len() - body.len() + k + q.len();
    Some(v)
  }
  fn dq(&mut self) -> R<Ident> {
    let a = self.i;
    let text = self.quoted("\"")?;
    Some(Ident { sp: self.sp(a), raw: self.s[a..self.i].to_string(), text })
  }
  fn ident(&mut self) -> R<Ident> {
    self.opt(Self::var).or_else(|| self.opt(Self::dq))
  }

  fn string(&mut self) -> R<String> {
    self.opt(|p| p.quoted("'''")).or_else(|| self.opt(|p| p.quoted("'")))
  }
  fn digits(&mut self) -> R<&'a str> {
    let a = self.i;
    while self.peek().is_ascii_digit() {
      self.i += 1
    }
    if self.i == a {
      None
    } else {
      Some(&self.s[a..self.i])
    }
  }
  fn value(&mut self) -> R<Lit> {
    let a = self.i;
    let val = if let Some(s) = self.opt(Self::string) {
      Val::Str(s)
    } else if let Some(s) = self.opt(|p| p.quoted("`")) {
      Val::Expr(s)
    } else if let Some(v) = self.opt(|p| {
      let w = [("true", Val::Bool(true)), ("false", Val::Bool(false)), ("null", Val::Null)];
      for (t, v) in w {
        if p.lit(t).is_some() {
          return if Self::is_w(p.peek()) { None } else { Some(v) };
        }
      }
      None
    }) {
      v
    } else if let Some(d) = self.opt(Self::digits) {
      if self.peek() == b'.' {
        self.i += 1;
        let _ = self.opt(Self::digits);
        match self.s[a..self.i].parse::<f64>() {
          Ok(x) => Val::Dec(x),
          Err(_) => {
            self.bad = true;
            Val::Null
          }
        }
      } else {
        // plain decimal reading, overflow is an error
        let mut v: i64 = 0;
        let mut ok = true;
        for c in d.bytes() {
          match v.checked_mul(10).and_then(|x| x.checked_add((c - b'0') as i64)) {
            Some(x) => v = x,
            None => {
              ok = false;
              break;
            }
          }
        }
        if !ok {
          self.bad = true;
        }
        Val::Int(v)
      }
    } else if self.peek() == b'#' {
      let hex = |p: &Self, from: usize| (from..from + 3).all(|k| p.b.get(k).is_some_and(|c| c.is_ascii_hexdigit()));
      if !hex(self, a + 1) {
        return None;
      }
      self.i = if hex(self, a + 4) { a + 7 } else { a + 4 };
      Val::Hex(self.s[a..self.i].to_string())
    } else {
      return None;
    };
    Some(Lit { sp: self.sp(a), raw: self.s[a..self.i].to_string(), val })
  }
  fn bare(&mut self) -> R<Lit> {
    let i = self.opt(Self::spaced_var)?;
    Some(Lit { sp: i.sp, raw: i.raw, val: Val::Enum(i.text) })
  }

  fn attribute(&mut self) -> R<Attr> {
    let key = self.spaced_var()?;
    let a = key.sp.a;
    let val = self.opt(|p| {
      p.sl(":")?;
      p.skip();
      if let Some(v) = p.opt(Self::value) {
        return Some(v);
      }
      if let Some(v) = p.bare() {
        return Some(v);
      }
      let i = p.dq()?;
      Some(Lit { sp: i.sp, raw: i.raw, val: Val::Str(i.text) })
    });
    let sp = if val.is_some() { self.sp(a) } else { self.spx(a) };
    Some(Attr { sp, key, val })
  }

  fn list<T>(&mut self, f: impl Fn(&mut Self) -> R<T> + Copy) -> Vec<T> {
    let mut v = vec![];
    if let Some(x) = self.opt(|p| {
      p.skip();
      f(p)
    }) {
      v.push(x);
      while let Some(x) = self.opt(|p| {
        p.sl(",")?;
        p.skip();
        f(p)
      }) {
        v.push(x)
      }
    }
    v
  }
  /// f, f, f ... without commas
  fn many<T>(&mut self, f: impl Fn(&mut Self) -> R<T> + Copy) -> Vec<T> {
    let mut v = vec![];
    while let Some(x) = self.opt(|p| {
      p.skip();
      f(p)
    }) {
      v.push(x)
    }
    v
  }

  fn settings(&mut self, refs: bool) -> R<Settings> {
    let a = self.i;
    self.lit("[")?;
    let items = self.list(|p| {
      if refs {
        if let Some(r) = p.opt(Self::inline_ref) {
          return Some(Item::Ref(r));
        }
      }
      p.attribute().map(Item::Attr)
    });
    self.sl("]")?;
    Some(Settings { sp: self.sp(a), items })
  }
  fn osettings(&mut self, refs: bool) -> Option<Settings> {
    self.opt(|p| {
      p.skip();
      p.settings(refs)
    })
  }

  fn relation(&mut self) -> R<Rel> {
    for r in [Rel::ManyMany, Rel::OneOne, Rel::ManyOne, Rel::OneMany] {
      if self.lit(r.sym()).is_some() {
        return Some(r);
      }
    }
    None
  }
  fn ref_ident(&mut self) -> R<RefIdent> {
    let a = self.i;
    let first = self.ident()?;
    self.sl(".")?;
    self.skip();
    let second = self.opt(|p| {
      let i = p.ident()?;
      p.sl(".")?;
      Some(i)
    });
    self.skip();
    let (cols, paren) = if let Some(i) = self.ident() {
      (vec![i], false)
    } else {
      self.lit("(")?;
      let v = self.list(Self::ident);
      if v.is_empty() {
        return None;
      }
      self.sl(")")?;
      (v, true)
    };
    let (schema, table) = match second {
      Some(t) => (Some(first), t),
      None => (None, first),
    };
    Some(RefIdent { sp: self.sp(a), schema, table, cols, paren })
  }
  fn inline_ref(&mut self) -> R<InlineRef> {
    let a = self.i;
    self.lit("ref")?;
    self.sl(":")?;
    self.skip();
    let rel = self.relation()?;
    self.skip();
    let rhs = self.ref_ident()?;
    Some(InlineRef { sp: self.sp(a), rel, rhs })
  }
  fn ref_stmt(&mut self) -> R<Ref> {
    let a = self.i;
    let lhs = self.ref_ident()?;
    self.skip();
    let rel = self.relation()?;
    self.skip();
    let rhs = self.ref_ident()?;
    let settings = self.osettings(false);
    if let Some(s) = &settings {
      for x in s.attrs() {
        if x.key.text == "delete" || x.key.text == "update" {
          if let Some(Lit { val: Val::Enum(v), .. }) = &x.val {
            if !["cascade", "restrict", "set null", "set default", "no action"].contains(&v.as_str()) {
              self.bad = true;
            }
          }
        }
      }
    }
    let sp = if settings.is_some() { self.sp(a) } else { self.spx(a) };
    Some(Ref { sp, block: false, name: None, rel, lhs, rhs, settings })
  }
  fn ref_decl(&mut self) -> R<Ref> {
    let blk = self.opt(|p| {
      p.ilit("Ref")?;
      let name = p.opt(|p| {
        p.skip();
        p.ident()
      });
      p.sl("{")?;
      p.skip();
      let mut r = p.ref_stmt()?;
      p.sl("}")?;
      r.name = name;
      r.block = true;
      Some(r)
    });
    if blk.is_some() {
      return blk;
    }
    self.ilit("Ref")?;
    let name = self.opt(|p| {
      p.skip();
      p.ident()
    });
    self.sl(":")?;
    self.skip();
    let mut r = self.ref_stmt()?;
    r.name = name;
    Some(r)
  }

  fn string_lit(&mut self) -> R<Lit> {
    let a = self.i;
    let s = self.string()?;
    Some(Lit { sp: self.sp(a), raw: self.s[a..self.i].to_string(), val: Val::Str(s) })
  }
  fn note(&mut self) -> R<Note> {
    let a = self.i;
    self.ilit("Note")?;
    self.skip();
    if self.lit(":").is_some() {
      self.skip();
      let lit = self.string_lit()?;
      Some(Note { sp: self.sp(a), block: false, lit })
    } else {
      self.lit("{")?;
      self.skip();
      let lit = self.string_lit()?;
      self.sl("}")?;
      Some(Note { sp: self.sp(a), block: true, lit })
    }
  }

  fn idx_ident(&mut self) -> R<IdxCol> {
    if let Some(i) = self.ident() {
      return Some(IdxCol::Id(i));
    }
    let a = self.i;
    let s = self.quoted("`")?;
    Some(IdxCol::Expr(Lit { sp: self.sp(a), raw: self.s[a..self.i].to_string(), val: Val::Str(s) }))
  }
  fn index_def(&mut self) -> R<IndexDef> {
    let a = self.i;
    let (cols, multi) = if let Some(c) = self.opt(Self::idx_ident) {
      (vec![c], false)
    } else {
      self.lit("(")?;
      let v = self.list(Self::idx_ident);
      self.sl(")")?;
      (v, true)
    };
    let settings = self.osettings(false);
    if let Some(s) = &settings {
      for x in s.attrs() {
        if x.key.text == "type" {
          if let Some(l) = &x.val {
            if !["btree", "gin", "gist", "hash"].contains(&l.val.text().as_str()) {
              self.bad = true;
            }
          }
        }
      }
    }
    let sp = if settings.is_some() { self.sp(a) } else { self.spx(a) };
    Some(IndexDef { sp, multi, cols, settings })
  }
  fn indexes(&mut self) -> R<Indexes> {
    self.ilit("Indexes")?;
    self.skip();
    let a = self.i;
    self.lit("{")?;
    let defs = self.many(Self::index_def);
    self.sl("}")?;
    Some(Indexes { sp: self.sp(a), defs })
  }

  fn type_tail(&mut self) -> (Vec<Val>, Vec<Option<u32>>) {
    let args = self
      .opt(|p| {
        p.lit("(")?;
        let v = p.list(Self::value);
        p.sl(")")?;
        Some(v)
      })
      .unwrap_or_default();
    (args.into_iter().map(|l| l.val).collect(), self.arrays())
  }
  fn arrays(&mut self) -> Vec<Option<u32>> {
    let mut arrays = vec![];
    while let Some(x) = self.opt(|p| {
      p.lit("[")?;
      let d = p.opt(|p| {
        p.skip();
        p.digits()
      });
      p.sl("]")?;
      Some(match d {
        None => None,
        Some(d) => {
          let v = d.bytes().try_fold(0u32, |v, c| v.checked_mul(10)?.checked_add((c - b'0') as u32));
          if v.is_none() {
            p.bad = true;
          }
          Some(v.unwrap_or(0))
        }
      })
    }) {
      arrays.push(x)
    }
    arrays
  }
  fn ty(&mut self) -> R<Type> {
    let a = self.i;
    let schema = self.opt(|p| {
      let i = p.ident()?;
      p.lit(".")?;
      Some(i)
    });
    let (name, args, arrays) = self
      .opt(|p| {
        p.lit("\"")?;
        let n = p.spaced_var()?;
        let (args, mut arr) = p.type_tail();
        p.lit("\"")?;
        arr.extend(p.arrays());
        Some((n, args, arr))
      })
      .or_else(|| {
        self.opt(|p| {
          let n = p.var()?;
          let (args, arr) = p.type_tail();
          Some((n, args, arr))
        })
      })?;
    let full = match &schema {
      Some(s) => format!("{}.{}", s.text, name.text),
      None => name.text.clone(),
    };
    Some(Type { sp: self.sp(a), raw: self.s[a..self.i].to_string(), name: full, schema: schema.map(|s| s.text), base: name.text, args, arrays })
  }
  fn col(&mut self) -> R<Col> {
    let a = self.i;
    let name = self.ident()?;
    self.skip();
    let ty = self.ty()?;
    let settings = self.osettings(true);
    let sp = if settings.is_some() { self.sp(a) } else { self.spx(a) };
    Some(Col { sp, name, ty, settings })
  }

  fn decl_ident(&mut self) -> R<(Sp, Option<Ident>, Ident)> {
    let a = self.i;
    let first = self.ident()?;
    match self.opt(|p| {
      p.sl(".")?;
      p.skip();
      p.ident()
    }) {
      Some(n) => Some((self.sp(a), Some(first), n)),
      None => Some((self.spx(a), None, first)),
    }
  }
  fn table(&mut self) -> R<Table> {
    let a = self.i;
    self.kw("Table")?;
    self.skip();
    let (ident_sp, schema, name) = self.decl_ident()?;
    let alias = self.opt(|p| {
      p.skip();
      p.kw("as")?;
      p.skip();
      p.ident()
    });
    let settings = self.osettings(false);
    self.sl("{")?;
    let body = self.many(|p| {
      if let Some(c) = p.opt(Self::col) {
        return Some(TItem::Col(c));
      }
      if let Some(c) = p.opt(Self::note) {
        return Some(TItem::Note(c));
      }
      p.indexes().map(TItem::Indexes)
    });
    self.sl("}")?;
    Some(Table { sp: self.sp(a), ident_sp, schema, name, alias, settings, body })
  }
  fn enum_(&mut self) -> R<Enum> {
    let a = self.i;
    self.kw("Enum")?;
    self.skip();
    let (ident_sp, schema, name) = self.decl_ident()?;
    self.sl("{")?;
    let values = self.many(|p| {
      let a = p.i;
      let value = p.ident()?;
      let settings = p.osettings(false);
      let sp = if settings.is_some() { p.sp(a) } else { p.spx(a) };
      Some(EnumValue { sp, value, settings })
    });
    self.sl("}")?;
    Some(Enum { sp: self.sp(a), ident_sp, schema, name, values })
  }
  fn group(&mut self) -> R<Group> {
    let a = self.i;
    self.kw("TableGroup")?;
    self.skip();
    let ident = self.ident()?;
    let settings = self.osettings(false);
    self.sl("{")?;
    let body = self.many(|p| {
      if let Some(n) = p.opt(Self::note) {
        return Some(GItem::Note(n));
      }
      let (sp, schema, name) = p.decl_ident()?;
      Some(GItem::Item(GroupItem { sp, schema, name }))
    });
    self.sl("}")?;
    Some(Group { sp: self.sp(a), ident, settings, body })
  }
  fn project(&mut self) -> R<Project> {
    let a = self.i;
    self.kw("Project")?;
    self.skip();
    let ident = self.ident()?;
    self.sl("{")?;
    let body = self.many(|p| {
      if let Some(n) = p.opt(Self::note) {
        return Some(PItem::Note(n));
      }
      let key = p.spaced_var()?;
      let a = key.sp.a;
      p.sl(":")?;
      p.skip();
      let val = p.opt(Self::value).or_else(|| p.bare())?;
      Some(PItem::Prop(Prop { sp: p.sp(a), key, val }))
    });
    self.sl("}")?;
    Some(Project { sp: self.sp(a), ident, body })
  }
  fn top(&mut self) -> R<Top> {
    if let Some(x) = self.opt(Self::project) {
      return Some(Top::Project(x));
    }
    if let Some(x) = self.opt(Self::table) {
      return Some(Top::Table(x));
    }
    if let Some(x) = self.opt(Self::enum_) {
      return Some(Top::Enum(x));
    }
    if let Some(x) = self.opt(Self::ref_decl) {
      return Some(Top::Ref(x));
    }
    if let Some(x) = self.opt(Self::group) {
      return Some(Top::Group(x));
    }
    self.note().map(Top::Note)
  }
}

pub fn parse(s: &str) -> Option<Doc> {
  let mut p = P::new(s);
  let blocks = p.many(P::top);
  p.skip();
  if !p.at_end() || p.bad {
    return None;
  }
  Some(Doc { blocks, len: s.len() })
}
