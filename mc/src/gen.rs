//! Building blocks of mirror documents, and the document machine.
use crate::explore::Ch;
use crate::mirror::*;
use crate::print;

pub const WS: [char; 4] = [' ', '\t', '\n', '\r'];

pub fn id(raw: &str) -> Ident {
  let text = match raw.strip_prefix('"') {
    Some(r) => r[..r.len() - 1].trim_start_matches(WS).to_string(),
    None => raw.to_string(),
  };
  Ident { sp: Sp::default(), raw: raw.into(), text }
}
pub fn lit(raw: &str, val: Val) -> Lit {
  Lit { sp: Sp::default(), raw: raw.into(), val }
}
/// single-quoted string
pub fn sq(text: &str) -> Lit {
  lit(&format!("'{text}'"), Val::Str(text.trim_start_matches(WS).into()))
}
pub fn tq(text: &str) -> Lit {
  lit(&format!("'''{text}'''"), Val::Str(text.trim_start_matches(WS).into()))
}
pub fn dq(text: &str) -> Lit {
  lit(&format!("\"{text}\""), Val::Str(text.trim_start_matches(WS).into()))
}
pub fn bq(text: &str) -> Lit {
  lit(&format!("`{text}`"), Val::Expr(text.trim_start_matches(WS).into()))
}
pub fn bare(text: &str) -> Lit {
  lit(text, Val::Enum(text.into()))
}
pub fn attr(key: &str, val: Option<Lit>) -> Item {
  Item::Attr(Attr { sp: Sp::default(), key: id(key), val })
}
pub fn settings(items: Vec<Item>) -> Option<Settings> {
  Some(Settings { sp: Sp::default(), items })
}
pub fn rid(schema: Option<&str>, table: &str, cols: &[&str]) -> RefIdent {
  RefIdent { sp: Sp::default(), schema: schema.map(id), table: id(table), cols: cols.iter().map(|c| id(c)).collect(), paren: cols.len() != 1 }
}
pub fn iref(rel: Rel, rhs: RefIdent) -> Item {
  Item::Ref(InlineRef { sp: Sp::default(), rel, rhs })
}
/// unqualified type; `raw` is the compact spelling
pub fn ty(raw: &str, schema: Option<&str>, base: &str, args: Vec<Val>, arrays: Vec<Option<u32>>) -> Type {
  let s = schema.map(id);
  let name = match &s {
    Some(s) => format!("{}.{}", s.text, base),
    None => base.to_string(),
  };
  Type { sp: Sp::default(), raw: raw.into(), name, schema: s.map(|s| s.text), base: base.into(), args, arrays }
}
pub fn int() -> Type {
  ty("int", None, "int", vec![], vec![])
}
pub fn col(name: &str, ty: Type, settings: Option<Settings>) -> Col {
  Col { sp: Sp::default(), name: id(name), ty, settings }
}
pub fn note(block: bool, lit: Lit) -> Note {
  Note { sp: Sp::default(), block, lit }
}
pub fn idx(cols: Vec<IdxCol>, settings: Option<Settings>) -> IndexDef {
  IndexDef { sp: Sp::default(), multi: cols.len() != 1, cols, settings }
}
pub fn ic(name: &str) -> IdxCol {
  IdxCol::Id(id(name))
}
pub fn ie(text: &str) -> IdxCol {
  IdxCol::Expr(lit(&format!("`{text}`"), Val::Str(text.trim_start_matches(WS).into())))
}
pub fn indexes(defs: Vec<IndexDef>) -> TItem {
  TItem::Indexes(Indexes { sp: Sp::default(), defs })
}
pub fn table(schema: Option<&str>, name: &str, body: Vec<TItem>) -> Table {
  Table { schema: schema.map(id), name: id(name), body, ..Default::default() }
}
pub fn enum_(schema: Option<&str>, name: &str, values: Vec<EnumValue>) -> Enum {
  Enum { schema: schema.map(id), name: id(name), values, ..Default::default() }
}
pub fn ev(v: &str, settings: Option<Settings>) -> EnumValue {
  EnumValue { sp: Sp::default(), value: id(v), settings }
}
pub fn ref_(block: bool, name: Option<&str>, lhs: RefIdent, rel: Rel, rhs: RefIdent, settings: Option<Settings>) -> Ref {
  Ref { sp: Sp::default(), block, name: name.map(id), rel, lhs, rhs, settings }
}
pub fn group(name: &str, settings: Option<Settings>, body: Vec<GItem>) -> Group {
  Group { sp: Sp::default(), ident: id(name), settings, body }
}
pub fn gi(schema: Option<&str>, name: &str) -> GItem {
  GItem::Item(GroupItem { sp: Sp::default(), schema: schema.map(id), name: id(name) })
}
pub fn project(name: &str, body: Vec<PItem>) -> Project {
  Project { sp: Sp::default(), ident: id(name), body }
}
pub fn prop(key: &str, val: Lit) -> PItem {
  PItem::Prop(Prop { sp: Sp::default(), key: id(key), val })
}
pub fn doc(blocks: Vec<Top>) -> Doc {
  Doc { blocks, len: 0 }
}

/* ------------------------------------------------------------------ menus */

/// identifiers of every look: plain, quoted, keyword-like, with case, digits, blanks, symbols, other scripts
pub const IDS: &[&str] = &[
  "a", "\"a\"", "A", "abc_1", "z9_", "\"a b\"", "\"\"", "\"é\"", "\"日本\"", "\"a.b\"", "\"'x'\"", "\"//c\"", "\"/*c*/\"", "\" lead\"", "\"trail \"",
  "\"a\nb\"", "\"{}[]()\"", "Table", "table", "Note", "note", "indexes", "ref", "Ref", "as", "enum", "Enum", "Project", "TableGroup", "pk", "null",
  "true", "false", "not", "t1", "x_", "\"1a\"", "\"_\"", "\"\\\"", "\"`\"", "\"😀\"", "\"public\"", "public", "asx", "notes", "noteX", "refs", "Refx", "nullable", "indexes2",
];
/// values of every kind that any position with a value takes
pub fn values() -> Vec<Lit> {
  let mut v = vec![
    lit("1", Val::Int(1)),
    sq("s"),
    bare("bare"),
    lit("true", Val::Bool(true)),
    lit("false", Val::Bool(false)),
    lit("null", Val::Null),
    lit("0", Val::Int(0)),
    lit("007", Val::Int(7)),
    lit("42", Val::Int(42)),
    lit("9223372036854775807", Val::Int(i64::MAX)),
    lit("1.5", Val::Dec(1.5)),
    lit("1.", Val::Dec(1.0)),
    lit("0.10", Val::Dec(0.1)),
    lit("123456.789", Val::Dec(123456.789)),
    lit("#fff", Val::Hex("#fff".into())),
    lit("#A0b1C2", Val::Hex("#A0b1C2".into())),
    bq("now()"),
    bq(""),
    bq(" // x"),
    sq(""),
    sq("// c"),
    sq("/* c */ d"),
    sq("  lead"),
    sq("trail  "),
    sq("two\nlines\r\n x"),
    sq("é😀"),
    sq("\"q\" `b` \\"),
    tq("t"),
    tq(""),
    tq("it's ''ok'."),
    tq("\n  block\n  text\n"),
    tq("// not a comment"),
  ];
  v.extend(["two words", "trueish", "nullable", "false_x", "true1", "no action", "A_b 9"].map(bare));
  v
}

pub fn types() -> Vec<Type> {
  let n = |r: &str| ty(r, None, r, vec![], vec![]);
  let i = |n: i64| Val::Int(n);
  vec![
    n("int"),
    n("varchar"),
    n("Foo_9"),
    ty("varchar(255)", None, "varchar", vec![i(255)], vec![]),
    ty("decimal(10,2)", None, "decimal", vec![i(10), i(2)], vec![]),
    ty("f()", None, "f", vec![], vec![]),
    ty("f(1,'x',`e`,true,null,1.5,#abc)", None, "f", vec![i(1), Val::Str("x".into()), Val::Expr("e".into()), Val::Bool(true), Val::Null, Val::Dec(1.5), Val::Hex("#abc".into())], vec![]),
    ty("int[]", None, "int", vec![], vec![None]),
    ty("int[3]", None, "int", vec![], vec![Some(3)]),
    ty("int[][4294967295][0]", None, "int", vec![], vec![None, Some(u32::MAX), Some(0)]),
    ty("varchar(5)[2]", None, "varchar", vec![i(5)], vec![Some(2)]),
    ty("s.e", Some("s"), "e", vec![], vec![]),
    ty("\"s p\".e", Some("\"s p\""), "e", vec![], vec![]),
    ty("\"x.y\".e[]", Some("\"x.y\""), "e", vec![], vec![None]),
    ty("\"int\"", None, "int", vec![], vec![]),
    ty("\"character varying\"", None, "character varying", vec![], vec![]),
    ty("\"character varying(20)[1]\"", None, "character varying", vec![i(20)], vec![Some(1)]),
    ty("\"double precision\"[]", None, "double precision", vec![], vec![None]),
    ty("\"int[7]\"[8]", None, "int", vec![], vec![Some(7), Some(8)]),
    ty("s.\"my type\"", Some("s"), "my type", vec![], vec![]),
    ty("f('// x','(',')')", None, "f", vec![Val::Str("// x".into()), Val::Str("(".into()), Val::Str(")".into())], vec![]),
  ]
}

/* ------------------------------------------------------------------ documents that cover the grammar */

/// One document with every construct in it.
pub fn kitchen_sink() -> Doc {
  let v = |k: &str, l: Lit| attr(k, Some(l));
  doc(vec![
    Top::Project(project(
      "shop",
      vec![prop("database_type", sq("PostgreSQL")), PItem::Note(note(true, tq("about")),), prop("version", lit("2", Val::Int(2))), prop("mode", bare("dev test"))],
    )),
    Top::Table(Table {
      alias: Some(id("u")),
      settings: settings(vec![v("headercolor", lit("#3498DB", Val::Hex("#3498DB".into()))), v("note", sq("n"))]),
      ..table(
        Some("core"),
        "users",
        vec![
          TItem::Col(col("id", int(), settings(vec![attr("pk", None), attr("increment", None)]))),
          TItem::Col(col("\"full name\"", ty("varchar(255)", None, "varchar", vec![Val::Int(255)], vec![]), settings(vec![attr("not null", None), attr("unique", None), v("default", sq("x"))]))),
          TItem::Col(col("tags", ty("text[]", None, "text", vec![], vec![None]), None)),
          TItem::Note(note(false, sq("first"))),
          TItem::Col(col("boss", int(), settings(vec![iref(Rel::ManyOne, rid(Some("core"), "users", &["id"])), v("note", sq("é")), attr("null", None)]))),
          indexes(vec![
            idx(vec![ic("tags")], None),
            idx(vec![ic("id"), ic("\"full name\"")], settings(vec![attr("unique", None), v("name", sq("ix"))])),
            idx(vec![ie("lower(x)")], settings(vec![v("type", bare("hash"))])),
            idx(vec![ie("a"), ic("boss")], settings(vec![v("type", bare("btree")), v("note", sq("k"))])),
          ]),
        ],
      )
    }),
    Top::Table(table(None, "posts", vec![TItem::Col(col("id", ty("core.kind", Some("core"), "kind", vec![], vec![]), settings(vec![v("default", bare("on"))]))), TItem::Col(col("n", ty("\"double precision\"", None, "double precision", vec![], vec![]), settings(vec![v("default", lit("1.5", Val::Dec(1.5)))])))])),
    Top::Enum(enum_(Some("core"), "kind", vec![ev("on", settings(vec![v("note", sq("yes"))])), ev("\"off now\"", None), ev("x", settings(vec![]))])),
    Top::Ref(ref_(false, None, rid(None, "posts", &["id"]), Rel::ManyOne, rid(None, "u", &["id"]), settings(vec![v("delete", bare("cascade")), v("update", bare("no action"))]))),
    Top::Ref(ref_(true, Some("fk1"), rid(None, "posts", &["id", "n"]), Rel::OneOne, rid(Some("core"), "users", &["id", "boss"]), None)),
    Top::Ref(ref_(false, Some("\"fk 2\""), rid(None, "posts", &["n"]), Rel::ManyMany, rid(None, "u", &["id"]), None)),
    Top::Group(group("g", settings(vec![v("color", bare("red"))]), vec![gi(None, "posts"), GItem::Note(note(false, sq("grp"))), gi(Some("core"), "users")])),
    Top::Note(note(true, tq("the end"))),
    Top::Note(note(false, sq("fin"))),
  ])
}

/// Small documents, each around one construct; together they use every alternative of the grammar.
pub fn small_docs() -> Vec<&'static str> {
  vec![
    "Project p { database_type: 'PostgreSQL' Note: 'n' a b: c d\n v: 1 }",
    "Table a { }",
    "Table s.a as b [color: #fff, k] { id int [pk] Note { '''n''' } }",
    "Table \"t\" { \"c d\" varchar(10) [not null, default: 'x', note: 'y'] b \"int\" }",
    "Table t { a s.e[][3] [ref: > s.t.a, ref: <> t.(a, b)] b dec(1,'x')[] [] }",
    "Table t { a int indexes { a (a, b) [pk] `f()` [type: hash] (`x`, a) [unique, name: 'n'] } }",
    "Enum e { a \"b\" [note: 'x'] c }",
    "Enum s.e { }",
    "Ref: a.b > c.d",
    "Ref n { s.a.(b, c) <> a.(d, e) [delete: set null, update: cascade] }",
    "Ref \"n\": a.b - c.d [delete: no action]",
    "TableGroup g [k: 'v'] { a s.b Note: 'n' \"c\" }",
    "Note { 'x' }\nNote: '''y'''",
    "Table t { a int [default: `now()`, x: true, y: null, z: 1.5, w: #abc, v: \"dq\", u: two words] }",
    "// c\nTable a { /* x */ b int // y\n}",
  ]
}

/// Documents that use the semantic features, accepted by the checker.
pub fn valid_docs() -> Vec<&'static str> {
  vec![
    "Project p { database_type: 'PostgreSQL' }",
    "Project p {}\nTable a { id int [pk] }\nTable b as x { id int [pk] a_id int [ref: > a.id, null] }\nRef: x.id - a.id",
    "Project p {}\nTable s.a as k { x int y int indexes { (x, y) [pk] x [type: btree] } }\nTable b { x int y int }\nRef r { b.(x, y) > s.a.(x, y) [delete: cascade] }\nTableGroup g { k b }",
    "Project p {}\nEnum e { on off }\nEnum s.e { one }\nTable t { a e [default: on] b s.e [default: 'one'] c varchar(3) [default: 'abc', unique] d smallint [default: 32767] e bool [default: true] f text [null, default: null] }",
    "Project p { a: 1 b: 2 Note: 'x' }\nTable \"a b\" { \"c d\" int [unique] }\n",
  ]
}

/* ------------------------------------------------------------------ the document machine */

fn pick_id(ch: &mut Ch, default: &str) -> Ident {
  match ch.dev(IDS.len() + 1) {
    0 => id(default),
    k => id(IDS[k - 1]),
  }
}
fn pick_val(ch: &mut Ch, default: Lit) -> Lit {
  let mut v = values();
  v.push(dq("dq"));
  match ch.dev(v.len() + 1) {
    0 => default,
    k => v.swap_remove(k - 1),
  }
}
fn pick_note(ch: &mut Ch) -> Note {
  let l = [sq("n"), tq("n"), sq(""), tq("// x\n"), sq("/* é")];
  note(ch.devflag(), ch.devof(&l).clone())
}
fn pick_settings(ch: &mut Ch, keys: &[&str], refs: bool) -> Option<Settings> {
  // absent, empty, one plain, one with a value, two, three
  let n = match ch.dev(6) {
    0 => return None,
    1 => 0,
    2 | 3 => 1,
    k => k - 2,
  };
  let with_val = n == 1 && ch.devflag();
  let mut items = vec![];
  for i in 0..n {
    if refs && ch.devflag() {
      items.push(iref(*ch.devof(&Rel::ALL), pick_rid(ch)));
      continue;
    }
    let key = keys[(i + ch.dev(keys.len())) % keys.len()];
    let val = if with_val || ch.devflag() { Some(pick_val(ch, bare("v"))) } else { None };
    let val = match (key, val) {
      ("type", Some(_)) => Some(bare(ch.devof(&["btree", "gin", "gist", "hash"]))),
      ("delete" | "update", Some(l)) if matches!(l.val, Val::Enum(_)) => Some(bare(ch.devof(&["cascade", "restrict", "set null", "set default", "no action"]))),
      (_, v) => v,
    };
    items.push(attr(key, val));
  }
  settings(items)
}
fn pick_rid(ch: &mut Ch) -> RefIdent {
  let schema = match ch.dev(3) {
    0 => None,
    1 => Some(id("s")),
    _ => Some(id("\"s p\"")),
  };
  let table = pick_id(ch, "t");
  let n = 1 + ch.dev(3);
  let cols: Vec<_> = (0..n).map(|i| if i == 0 { pick_id(ch, "c") } else { id(["", "d", "\"e f\""][i]) }).collect();
  RefIdent { sp: Sp::default(), schema, table, paren: n > 1 || ch.devflag(), cols }
}

pub fn block(ch: &mut Ch, kind: usize) -> Top {
  match kind {
    0 => {
      let mut t = Table { name: pick_id(ch, "t"), ..Default::default() };
      if ch.devflag() {
        t.schema = Some(pick_id(ch, "s"));
      }
      if ch.devflag() {
        t.alias = Some(pick_id(ch, "al"));
      }
      t.settings = pick_settings(ch, &["note", "headercolor", "k"], false);
      let shapes: &[&[u8]] = &[b"c", b"", b"cc", b"n", b"i", b"cn", b"nc", b"ci", b"ic", b"cnc", b"cici", b"nn", b"cccc"];
      let tys = types();
      for (k, s) in ch.devof(shapes).iter().enumerate() {
        t.body.push(match s {
          b'c' => {
            let name = pick_id(ch, ["c", "d", "e", "f"][k]);
            let ty = ch.devof(&tys).clone();
            TItem::Col(Col { sp: Sp::default(), name, ty, settings: pick_settings(ch, &["pk", "unique", "not null", "null", "increment", "default", "note", "primary key", "x"], true) })
          }
          b'n' => TItem::Note(pick_note(ch)),
          _ => {
            let n = ch.dev(4);
            let n = [1, 0, 2, 3][n];
            let mut defs = vec![];
            for _ in 0..n {
              let cols = match ch.dev(7) {
                0 => vec![ic("c")],
                1 => vec![ic("c"), ic("d")],
                2 => vec![ie("f(x)")],
                3 => vec![ie("f"), ic("\"q r\""), ie(" //")],
                4 => vec![],
                5 => vec![IdxCol::Id(pick_id(ch, "c"))],
                _ => vec![ic("d"), ic("c"), ic("b")],
              };
              let mut d = idx(cols, pick_settings(ch, &["pk", "unique", "type", "name", "note", "x"], false));
              d.multi |= ch.devflag();
              defs.push(d);
            }
            indexes(defs)
          }
        });
      }
      Top::Table(t)
    }
    1 => {
      let mut e = Enum { name: pick_id(ch, "e"), ..Default::default() };
      if ch.devflag() {
        e.schema = Some(pick_id(ch, "s"));
      }
      let n = [1, 0, 2, 3][ch.dev(4)];
      for k in 0..n {
        e.values.push(EnumValue { sp: Sp::default(), value: pick_id(ch, ["v", "w", "x"][k]), settings: pick_settings(ch, &["note", "k"], false) });
      }
      Top::Enum(e)
    }
    2 => {
      let name = if ch.devflag() { Some(pick_id(ch, "r")) } else { None };
      let (block, lhs, rel, rhs) = (ch.devflag(), pick_rid(ch), *ch.devof(&Rel::ALL), pick_rid(ch));
      Top::Ref(Ref { sp: Sp::default(), block, name, rel, lhs, rhs, settings: pick_settings(ch, &["delete", "update", "color"], false) })
    }
    3 => {
      let mut g = Group { ident: pick_id(ch, "g"), ..Default::default() };
      g.settings = pick_settings(ch, &["note", "color"], false);
      let shapes: &[&[u8]] = &[b"i", b"", b"ii", b"n", b"in", b"ni", b"ini", b"nn", b"iii"];
      for s in *ch.devof(shapes) {
        g.body.push(match s {
          b'n' => GItem::Note(pick_note(ch)),
          _ => {
            let schema = if ch.devflag() { Some(pick_id(ch, "s")) } else { None };
            GItem::Item(GroupItem { sp: Sp::default(), schema, name: pick_id(ch, "t") })
          }
        })
      }
      Top::Group(g)
    }
    4 => {
      let mut p = Project { ident: pick_id(ch, "p"), ..Default::default() };
      let shapes: &[&[u8]] = &[b"p", b"", b"pp", b"n", b"pn", b"np", b"pnp", b"nn", b"ppp"];
      for (k, s) in ch.devof(shapes).iter().enumerate() {
        p.body.push(match s {
          b'n' => PItem::Note(pick_note(ch)),
          _ => {
            let key = ["database_type", "k", "a b"][(k + ch.dev(3)) % 3];
            let v = values();
            let default = [sq("PostgreSQL"), sq("MySQL"), sq("")][ch.dev(3)].clone();
            let val = match ch.dev(v.len() + 1) {
              0 => default,
              k => v[k - 1].clone(),
            };
            prop(key, val)
          }
        })
      }
      Top::Project(p)
    }
    _ => Top::Note(pick_note(ch)),
  }
}

/// Up to `n` blocks of any kinds, each with its own deviations.
pub fn document(ch: &mut Ch, n: usize) -> Doc {
  let mut d = Doc::default();
  let k = 1 + ch.free(n);
  for _ in 0..k {
    let kind = ch.free(6);
    d.blocks.push(block(ch, kind));
  }
  d
}

pub fn compact(d: &mut Doc) -> String {
  print::print(d, &print::compact)
}
pub fn airy(d: &mut Doc) -> String {
  print::print(d, &print::airy)
}
