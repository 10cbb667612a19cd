//! Printer: mirror AST -> text under a layout. While printing it writes the expected spans into the mirror
//! AST, so the expected result of parsing is known by construction.
use crate::mirror::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Gap {
  /// separator optional
  Free,
  /// some whitespace or comment needed
  Req,
  /// after a block keyword: starts with a whitespace character
  Kw,
  /// after a bare (possibly spaced) word before another word: anything but a single space
  Word,
  /// nothing allowed
  Glue,
}

/// layout: gap number, gap kind -> separator
pub type Layout<'b, 'l> = dyn Fn(usize, Gap) -> &'l str + 'b;

pub fn compact(_: usize, g: Gap) -> &'static str {
  match g {
    Gap::Free | Gap::Glue => "",
    Gap::Req | Gap::Kw => " ",
    Gap::Word => "\n",
  }
}
pub fn airy(_: usize, g: Gap) -> &'static str {
  match g {
    Gap::Glue => "",
    Gap::Free | Gap::Req | Gap::Kw => " ",
    Gap::Word => "\n ",
  }
}

pub const OPEN: usize = usize::MAX;

pub struct W<'b, 'l> {
  pub out: String,
  pub gaps: usize,
  pub kinds: Vec<Gap>,
  layout: &'b Layout<'b, 'l>,
  next: Option<Gap>,
}

fn word(c: char) -> bool {
  c.is_ascii_alphanumeric() || c == '_'
}

impl<'b, 'l> W<'b, 'l> {
  pub fn new(layout: &'b Layout<'b, 'l>) -> Self {
    W { out: String::new(), gaps: 0, kinds: vec![], layout, next: None }
  }
  fn sep(&mut self, first: Option<char>) {
    let mut g = self.next.take();
    if g.is_none() || g == Some(Gap::Free) {
      let both = match (self.out.chars().last(), first) {
        (Some(a), Some(b)) => word(a) && word(b),
        _ => false,
      };
      g = Some(if both { Gap::Req } else { Gap::Free });
    }
    let g = g.unwrap();
    if g != Gap::Glue {
      let s = (self.layout)(self.gaps, g);
      self.out.push_str(s);
      self.gaps += 1;
      self.kinds.push(g);
    }
  }
  pub fn tok(&mut self, s: &str) -> Sp {
    self.sep(s.chars().next());
    let a = self.out.len();
    self.out.push_str(s);
    let b = self.out.len();
    Sp { a, b, bx: b }
  }
  pub fn gap(&mut self, g: Gap) {
    self.next = Some(g)
  }
  pub fn end(&mut self) {
    self.sep(None);
  }
  fn here(&self) -> usize {
    self.out.len()
  }
  fn ident(&mut self, i: &mut Ident) -> usize {
    i.sp = self.tok(&i.raw.clone());
    i.sp.a
  }
  fn lit(&mut self, l: &mut Lit) -> usize {
    l.sp = self.tok(&l.raw.clone());
    l.sp.a
  }
  fn close(&self, a: usize, open: bool) -> Sp {
    let b = self.here();
    Sp { a, b, bx: if open { OPEN } else { b } }
  }
  /// schema.name; returns the span of the whole
  fn decl(&mut self, schema: &mut Option<Ident>, name: &mut Ident) -> Sp {
    match schema {
      Some(s) => {
        let a = self.ident(s);
        self.tok(".");
        self.ident(name);
        self.close(a, false)
      }
      None => {
        let a = self.ident(name);
        self.close(a, true)
      }
    }
  }
  fn attr(&mut self, x: &mut Attr) {
    let a = self.ident(&mut x.key);
    if let Some(l) = &mut x.val {
      self.tok(":");
      self.lit(l);
    }
    x.sp = self.close(a, x.val.is_none());
  }
  fn rident(&mut self, r: &mut RefIdent) -> usize {
    let a;
    match &mut r.schema {
      Some(s) => {
        a = self.ident(s);
        self.tok(".");
        self.ident(&mut r.table);
      }
      None => a = self.ident(&mut r.table),
    }
    self.tok(".");
    if r.paren || r.cols.len() != 1 {
      self.tok("(");
      for (i, c) in r.cols.iter_mut().enumerate() {
        if i > 0 {
          self.tok(",");
        }
        self.ident(c);
      }
      self.tok(")");
    } else {
      self.ident(&mut r.cols[0]);
    }
    r.sp = self.close(a, false);
    a
  }
  fn settings(&mut self, s: &mut Settings, after_type: bool) {
    if after_type && s.items.is_empty() {
      self.gap(Gap::Req);
    }
    let a = self.tok("[").a;
    for (i, x) in s.items.iter_mut().enumerate() {
      if i > 0 {
        self.tok(",");
      }
      match x {
        Item::Attr(x) => self.attr(x),
        Item::Ref(r) => {
          let a = self.tok("ref").a;
          self.tok(":");
          self.tok(r.rel.sym());
          self.rident(&mut r.rhs);
          r.sp = self.close(a, false);
        }
      }
    }
    self.tok("]");
    s.sp = self.close(a, false);
  }
  /// `ty.raw` holds the compact form; it is re-tokenised here so that a layout can be applied inside parens.
  fn ty(&mut self, t: &mut Type) {
    let toks = type_tokens(&t.raw);
    let a = self.tok(&toks[0].0).a;
    for (s, free) in &toks[1..] {
      self.gap(if *free { Gap::Free } else { Gap::Glue });
      // inside parens a word-word adjacency cannot occur, so Free is right
      self.tok(s);
    }
    t.sp = self.close(a, false);
    t.raw = self.out[t.sp.a..t.sp.b].to_string();
  }
  fn note(&mut self, n: &mut Note, kw: &str) {
    let a = self.tok(kw).a;
    if n.block {
      self.tok("{");
      self.lit(&mut n.lit);
      self.tok("}");
    } else {
      self.tok(":");
      self.lit(&mut n.lit);
    }
    n.sp = self.close(a, false);
  }
  fn kw(&mut self, s: &str) -> usize {
    let a = self.tok(s).a;
    self.gap(Gap::Kw);
    a
  }
  pub fn block(&mut self, b: &mut Top) {
    match b {
      Top::Project(p) => {
        let a = self.kw("Project");
        self.ident(&mut p.ident);
        self.tok("{");
        let mut bare = false;
        for i in &mut p.body {
          if bare {
            self.gap(Gap::Word);
          }
          match i {
            PItem::Note(n) => {
              self.note(n, "note");
              bare = false;
            }
            PItem::Prop(x) => {
              let a = self.ident(&mut x.key);
              self.tok(":");
              self.lit(&mut x.val);
              x.sp = self.close(a, false);
              bare = matches!(x.val.val, Val::Enum(_));
            }
          }
        }
        self.tok("}");
        p.sp = self.close(a, false);
      }
      Top::Table(t) => {
        let a = self.kw("Table");
        t.ident_sp = self.decl(&mut t.schema, &mut t.name);
        if let Some(al) = &mut t.alias {
          self.kw("as");
          self.ident(al);
        }
        if let Some(s) = &mut t.settings {
          self.settings(s, false);
        }
        self.tok("{");
        for i in &mut t.body {
          match i {
            TItem::Col(c) => {
              let a = self.ident(&mut c.name);
              self.ty(&mut c.ty);
              if let Some(s) = &mut c.settings {
                self.settings(s, true);
              }
              c.sp = self.close(a, c.settings.is_none());
            }
            TItem::Note(n) => self.note(n, "Note"),
            TItem::Indexes(x) => {
              self.tok("indexes");
              let a = self.tok("{").a;
              for d in &mut x.defs {
                let mut a = 0;
                d.multi |= d.cols.len() != 1;
                if d.multi {
                  a = self.tok("(").a;
                }
                for (i, c) in d.cols.iter_mut().enumerate() {
                  if i > 0 {
                    self.tok(",");
                  }
                  let s = match c {
                    IdxCol::Id(i) => self.ident(i),
                    IdxCol::Expr(l) => self.lit(l),
                  };
                  if !(d.multi) {
                    a = s
                  }
                }
                if d.multi {
                  self.tok(")");
                }
                if let Some(s) = &mut d.settings {
                  self.settings(s, false);
                }
                d.sp = self.close(a, d.settings.is_none());
              }
              self.tok("}");
              x.sp = self.close(a, false);
            }
          }
        }
        self.tok("}");
        t.sp = self.close(a, false);
      }
      Top::Enum(e) => {
        let a = self.kw("Enum");
        e.ident_sp = self.decl(&mut e.schema, &mut e.name);
        self.tok("{");
        for v in &mut e.values {
          let a = self.ident(&mut v.value);
          if let Some(s) = &mut v.settings {
            self.settings(s, false);
          }
          v.sp = self.close(a, v.settings.is_none());
        }
        self.tok("}");
        e.sp = self.close(a, false);
      }
      Top::Ref(r) => {
        self.tok("Ref");
        if let Some(n) = &mut r.name {
          self.ident(n);
        }
        self.tok(if r.block { "{" } else { ":" });
        let a = self.rident(&mut r.lhs);
        self.tok(r.rel.sym());
        self.rident(&mut r.rhs);
        if let Some(s) = &mut r.settings {
          self.settings(s, false);
        }
        r.sp = self.close(a, r.settings.is_none());
        if r.block {
          self.tok("}");
        }
      }
      Top::Group(g) => {
        let a = self.kw("TableGroup");
        self.ident(&mut g.ident);
        if let Some(s) = &mut g.settings {
          self.settings(s, false);
        }
        self.tok("{");
        for i in &mut g.body {
          match i {
            GItem::Note(n) => self.note(n, "note"),
            GItem::Item(i) => i.sp = self.decl(&mut i.schema, &mut i.name),
          }
        }
        self.tok("}");
        g.sp = self.close(a, false);
      }
      Top::Note(n) => self.note(n, "Note"),
    }
  }
}

/// Splits a compact column type into tokens; the flag says whether trivia may precede the token.
fn type_tokens(raw: &str) -> Vec<(String, bool)> {
  let mut out: Vec<(String, bool)> = vec![];
  let mut cur = String::new();
  let mut depth = 0; // inside ( ) or [ ]
  let mut quote: Option<char> = None;
  for c in raw.chars() {
    if depth > 0 {
      if let Some(q) = quote {
        cur.push(c);
        if c == q {
          quote = None;
        }
        continue;
      }
      match c {
        '\'' | '`' => {
          quote = Some(c);
          cur.push(c)
        }
        ',' | ')' | ']' => {
          if !cur.is_empty() {
            out.push((std::mem::take(&mut cur), true));
          }
          out.push((c.to_string(), true));
          if c != ',' {
            depth = 0
          }
        }
        _ => cur.push(c),
      }
    } else if c == '(' || c == '[' {
      if !cur.is_empty() {
        out.push((std::mem::take(&mut cur), false));
      }
      out.push((c.to_string(), false));
      depth = 1;
    } else {
      cur.push(c);
    }
  }
  if !cur.is_empty() {
    out.push((cur, false));
  }
  out
}

/// Prints the document, fills in its spans and returns the text.
pub fn print<'b>(d: &mut Doc, layout: &'b Layout<'b, '_>) -> String {
  let mut w = W::new(layout);
  for b in &mut d.blocks {
    // a bare-word tail cannot end a block, so Free is right between blocks
    w.block(b);
  }
  w.end();
  d.len = w.out.len();
  w.out
}

pub fn print_kinds<'b>(d: &mut Doc, layout: &'b Layout<'b, '_>) -> (String, Vec<Gap>) {
  let mut w = W::new(layout);
  for b in &mut d.blocks {
    w.block(b);
  }
  w.end();
  d.len = w.out.len();
  (w.out, w.kinds)
}
