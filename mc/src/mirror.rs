//! Mirror AST: the reference model's own picture of a DBML document.
//! It keeps what the real AST drops (order of body items, repeated notes), so it can also be printed.

/// start, end after the last token, greatest end a span may have (trailing trivia where allowed).
#[derive(Clone, Copy, Default, Debug, PartialEq, Eq)]
pub struct Sp {
  pub a: usize,
  pub b: usize,
  pub bx: usize,
}

#[derive(Clone, Default, Debug, PartialEq)]
pub struct Ident {
  pub sp: Sp,
  pub raw: String,
  pub text: String,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
  Enum(String),
  Str(String),
  Int(i64),
  Dec(f64),
  Bool(bool),
  Hex(String),
  Expr(String),
  Null,
}

impl Val {
  /// canonical text of a value
  pub fn text(&self) -> String {
    match self {
      Val::Enum(s) | Val::Str(s) | Val::Hex(s) | Val::Expr(s) => s.clone(),
      Val::Int(i) => i.to_string(),
      Val::Dec(d) => format!("{d}"),
      Val::Bool(b) => b.to_string(),
      Val::Null => "null".into(),
    }
  }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Lit {
  pub sp: Sp,
  pub raw: String,
  pub val: Val,
}

#[derive(Clone, Default, Debug, PartialEq)]
pub struct Attr {
  pub sp: Sp,
  pub key: Ident,
  pub val: Option<Lit>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
  Attr(Attr),
  Ref(InlineRef),
}

#[derive(Clone, Default, Debug, PartialEq)]
pub struct Settings {
  pub sp: Sp,
  pub items: Vec<Item>,
}

impl Settings {
  pub fn attrs(&self) -> impl Iterator<Item = &Attr> {
    self.items.iter().filter_map(|i| if let Item::Attr(a) = i { Some(a) } else { None })
  }
  pub fn refs(&self) -> impl Iterator<Item = &InlineRef> {
    self.items.iter().filter_map(|i| if let Item::Ref(a) = i { Some(a) } else { None })
  }
  pub fn has(&self, key: &str) -> bool {
    self.attrs().any(|a| a.key.text == key)
  }
  /// value of the last attribute with this key
  pub fn last(&self, key: &str) -> Option<&Attr> {
    self.attrs().filter(|a| a.key.text == key).last()
  }
  pub fn last_val(&self, key: &str) -> Option<&Val> {
    self.last(key).and_then(|a| a.val.as_ref()).map(|l| &l.val)
  }
  pub fn first_val_span(&self, key: &str) -> Option<Sp> {
    self.attrs().find(|a| a.key.text == key).and_then(|a| a.val.as_ref()).map(|l| l.sp)
  }
  pub fn is_pk_col(&self) -> bool {
    self.has("pk") || self.has("primary key")
  }
  /// None, Some(true) = null, Some(false) = not null; the last one decides
  pub fn nullable(&self) -> Option<bool> {
    let mut r = None;
    for a in self.attrs() {
      match a.key.text.as_str() {
        "null" => r = Some(true),
        "not null" => r = Some(false),
        _ => (),
      }
    }
    r
  }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum Rel {
  #[default]
  OneOne,
  OneMany,
  ManyOne,
  ManyMany,
}

impl Rel {
  pub const ALL: [Rel; 4] = [Rel::ManyOne, Rel::OneMany, Rel::OneOne, Rel::ManyMany];
  pub fn sym(self) -> &'static str {
    match self {
      Rel::OneOne => "-",
      Rel::OneMany => "<",
      Rel::ManyOne => ">",
      Rel::ManyMany => "<>",
    }
  }
  pub fn mirror(self) -> Rel {
    match self {
      Rel::OneMany => Rel::ManyOne,
      Rel::ManyOne => Rel::OneMany,
      r => r,
    }
  }
}

#[derive(Clone, Default, Debug, PartialEq)]
pub struct RefIdent {
  pub sp: Sp,
  pub schema: Option<Ident>,
  pub table: Ident,
  pub cols: Vec<Ident>,
  pub paren: bool,
}

#[derive(Clone, Default, Debug, PartialEq)]
pub struct InlineRef {
  pub sp: Sp,
  pub rel: Rel,
  pub rhs: RefIdent,
}

#[derive(Clone, Default, Debug, PartialEq)]
pub struct Ref {
  pub sp: Sp,
  pub block: bool,
  pub name: Option<Ident>,
  pub rel: Rel,
  pub lhs: RefIdent,
  pub rhs: RefIdent,
  pub settings: Option<Settings>,
}

#[derive(Clone, Default, Debug, PartialEq)]
pub struct Type {
  pub sp: Sp,
  pub raw: String,
  /// name, with schema prefix if written
  pub name: String,
  pub schema: Option<String>,
  pub base: String,
  pub args: Vec<Val>,
  pub arrays: Vec<Option<u32>>,
}

#[derive(Clone, Default, Debug, PartialEq)]
pub struct Col {
  pub sp: Sp,
  pub name: Ident,
  pub ty: Type,
  pub settings: Option<Settings>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Note {
  pub sp: Sp,
  pub block: bool,
  pub lit: Lit,
}

#[derive(Clone, Debug, PartialEq)]
pub enum IdxCol {
  Id(Ident),
  /// literal with the expression text
  Expr(Lit),
}

#[derive(Clone, Default, Debug, PartialEq)]
pub struct IndexDef {
  pub sp: Sp,
  pub multi: bool,
  pub cols: Vec<IdxCol>,
  pub settings: Option<Settings>,
}

#[derive(Clone, Default, Debug, PartialEq)]
pub struct Indexes {
  pub sp: Sp,
  pub defs: Vec<IndexDef>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum TItem {
  Col(Col),
  Note(Note),
  Indexes(Indexes),
}

#[derive(Clone, Default, Debug, PartialEq)]
pub struct Table {
  pub sp: Sp,
  pub ident_sp: Sp,
  pub schema: Option<Ident>,
  pub name: Ident,
  pub alias: Option<Ident>,
  pub settings: Option<Settings>,
  pub body: Vec<TItem>,
}

impl Table {
  pub fn cols(&self) -> impl Iterator<Item = &Col> + Clone {
    self.body.iter().filter_map(|i| if let TItem::Col(c) = i { Some(c) } else { None })
  }
  pub fn note(&self) -> Option<&Note> {
    self.body.iter().filter_map(|i| if let TItem::Note(c) = i { Some(c) } else { None }).last()
  }
  pub fn indexes(&self) -> Option<&Indexes> {
    self.body.iter().filter_map(|i| if let TItem::Indexes(c) = i { Some(c) } else { None }).last()
  }
}

#[derive(Clone, Default, Debug, PartialEq)]
pub struct EnumValue {
  pub sp: Sp,
  pub value: Ident,
  pub settings: Option<Settings>,
}

#[derive(Clone, Default, Debug, PartialEq)]
pub struct Enum {
  pub sp: Sp,
  pub ident_sp: Sp,
  pub schema: Option<Ident>,
  pub name: Ident,
  pub values: Vec<EnumValue>,
}

#[derive(Clone, Default, Debug, PartialEq)]
pub struct GroupItem {
  pub sp: Sp,
  pub schema: Option<Ident>,
  pub name: Ident,
}

#[derive(Clone, Debug, PartialEq)]
pub enum GItem {
  Note(Note),
  Item(GroupItem),
}

#[derive(Clone, Default, Debug, PartialEq)]
pub struct Group {
  pub sp: Sp,
  pub ident: Ident,
  pub settings: Option<Settings>,
  pub body: Vec<GItem>,
}

impl Group {
  pub fn items(&self) -> impl Iterator<Item = &GroupItem> {
    self.body.iter().filter_map(|i| if let GItem::Item(c) = i { Some(c) } else { None })
  }
  pub fn note(&self) -> Option<&Note> {
    self.body.iter().filter_map(|i| if let GItem::Note(c) = i { Some(c) } else { None }).last()
  }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Prop {
  pub sp: Sp,
  pub key: Ident,
  pub val: Lit,
}

#[derive(Clone, Debug, PartialEq)]
pub enum PItem {
  Note(Note),
  Prop(Prop),
}

#[derive(Clone, Default, Debug, PartialEq)]
pub struct Project {
  pub sp: Sp,
  pub ident: Ident,
  pub body: Vec<PItem>,
}

impl Project {
  pub fn props(&self) -> impl Iterator<Item = &Prop> {
    self.body.iter().filter_map(|i| if let PItem::Prop(c) = i { Some(c) } else { None })
  }
  pub fn note(&self) -> Option<&Note> {
    self.body.iter().filter_map(|i| if let PItem::Note(c) = i { Some(c) } else { None }).last()
  }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Top {
  Project(Project),
  Table(Table),
  Enum(Enum),
  Ref(Ref),
  Group(Group),
  Note(Note),
}

#[derive(Clone, Default, Debug, PartialEq)]
pub struct Doc {
  pub blocks: Vec<Top>,
  pub len: usize,
}
