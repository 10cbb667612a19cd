//! Shared menus of the syntactic machines.
use crate::explore::Ch;

pub struct Context {
  pub pre: &'static str,
  pub post: &'static str,
  pub tokens: &'static [&'static str],
}

/// syntactic contexts, each with the tokens that mean something there and some that do not
pub const CONTEXTS: &[Context] = &[
  Context { pre: "", post: "", tokens: &["Project", "Table", "Enum", "Ref", "TableGroup", "Note", "a", "\"b\"", "{", "}", ":", ".", "as", "[", "]", "'x'", "a.b", ">", "indexes", "t { }", "1", "//"] },
  Context { pre: "Table ", post: "", tokens: &["a", "\"b\"", ".", "as", "[", "]", "{", "}", "k", ":", "1", ",", "int", "'x'", "(", "AS"] },
  Context { pre: "Table t {", post: "}", tokens: &["a", "int", "\"b c\"", "(1)", "[", "]", "Note", "note", ":", "{", "}", "'x'", "indexes", "pk", ",", ".", "'''y'''", "[]", "(", ")", "1", "ref", "`f`"] },
  Context { pre: "Table t { a ", post: "}", tokens: &["int", "\"int\"", "\"a b\"", "(", ")", "[", "]", "1", ",", "'x'", ".", "s", "\"s\"", "pk", "\"int(1)\"", "\"", "-1", "null", "[]", "`e`"] },
  Context { pre: "Table t { a int [", post: "] }", tokens: &["pk", "not null", "null", "unique", ",", ":", "default", "note", "'x'", "1", "`e`", "ref", ">", "a.b", "-", "a.b.c", "\"d\"", "true", "(", ")", "primary key", "x y", "#fff", "."] },
  Context { pre: "Table t { a int indexes {", post: "} }", tokens: &["a", "\"b\"", "`f`", "(", ")", ",", "[", "]", "pk", "type", ":", "btree", "hash", "'x'", "name", "unique", "{", "}", "note", "1"] },
  Context { pre: "Table t { a int indexes { a [type: ", post: "] } }", tokens: &["btree", "gin", "gist", "hash", "Hash", "'btree'", "brin", "b", "tree", "`hash`", "1", "null", "\"gin\"", ",", "pk", ":", "type"] },
  Context { pre: "Enum ", post: "", tokens: &["e", "\"f\"", ".", "{", "}", "a", "\"b\"", "[", "]", "note", ":", "'x'", ",", "as", "1", "x", "Note"] },
  Context { pre: "Enum e {", post: "}", tokens: &["a", "\"b\"", "[", "]", "note", ":", "'x'", ",", "1", ".", "Note", "{", "}", "x: 1", "'y'", "true"] },
  Context { pre: "Ref", post: "", tokens: &[" n", "\"n\"", ":", "{", "}", " a.b", "c.d", ">", "<", "-", "<>", ".", "(", ")", ",", " a", "[", "]", "delete", "cascade", "::"] },
  Context { pre: "Ref: ", post: "", tokens: &["a", "\"b\"", ".", ">", "<", "-", "<>", "(", ")", ",", "[", "]", "a.b", "c.(d, e)", "s.t.x", "delete: cascade", "}", "{"] },
  Context { pre: "Ref: a.b > c.d", post: "", tokens: &["[", "]", "delete", "update", ":", "cascade", "restrict", "set null", "set default", "no action", "set", "null", ",", "Cascade", "'cascade'", "x", "1", "NO ACTION", "action"] },
  Context { pre: "TableGroup ", post: "", tokens: &["g", "\"h\"", "{", "}", "a", "b.c", ".", "[", "]", "note", ":", "'x'", "Note", ",", "1", "as"] },
  Context { pre: "TableGroup g {", post: "}", tokens: &["a", "\"b\"", ".", "a.b", "Note", "note", ":", "'x'", "{", "}", ",", "[", "]", "'''y'''", "1", "as"] },
  Context { pre: "Project ", post: "", tokens: &["p", "\"q\"", "{", "}", "a", ":", "'x'", "Note", ".", "[", "]", "1", "b c", ",", "as"] },
  Context { pre: "Project p {", post: "}", tokens: &["a", "b c", ":", "'x'", "1", "true", "Note", "note", "{", "}", "'''y'''", "\"d\"", "`e`", "#abc", ",", "null", "database_type", "word", "1.5", "."] },
  Context { pre: "Note", post: "", tokens: &[":", "{", "}", "'x'", "'''y'''", "\"d\"", "`e`", " a", "1", "'", "''", "[", "Note", " ", ","] },
  Context { pre: "Note {", post: "}", tokens: &["'x'", "'''y'''", ",", "{", "}", ":", "a", "\"d\"", ";", "1", "Note", "`e`"] },
  Context { pre: "Table t { Note {", post: "} }", tokens: &["'x'", "'''y'''", ",", "{", "}", ":", "a", "\"d\"", "1", "note"] },
];

/// tokens with the gap behind them
pub fn units(doc: &str) -> Vec<String> {
  let mut v: Vec<String> = vec![];
  for t in super::c02::lex(doc) {
    match v.last_mut() {
      Some(l) if t.trim().is_empty() => l.push_str(&t),
      _ => v.push(t),
    }
  }
  v
}

/// a run of up to `max` tokens deleted, or copied or moved to any place, possibly behind a comma
pub fn rerun(ch: &mut Ch, toks: &[Vec<String>], max: usize) -> String {
  let t = ch.of(toks);
  let i = ch.free(t.len());
  let n = 1 + ch.free(max.min(t.len() - i));
  let mut rest = t.clone();
  let run = match ch.free(3) {
    0 => {
      rest.drain(i..i + n);
      return rest.concat();
    }
    1 => rest.drain(i..i + n).collect::<String>(),
    _ => rest[i..i + n].concat(),
  };
  let to = ch.free(rest.len() + 1);
  let run = match ch.free(3) {
    0 => run,
    1 => format!(" {run} "),
    _ => format!(", {run} "),
  };
  rest.insert(to, run);
  rest.concat()
}

/// keys that some settings list gives a meaning to
pub const KEYS: &[&str] = &["pk", "primary key", "unique", "null", "not null", "increment", "default", "note", "ref", "name", "type", "delete", "update", "color", "headercolor", "database_type", "Note", "x"];

/// documents with a hole (@) for a settings list, or a property
pub const HOSTS: &[&str] = &[
  "Project p {}\nTable t [@] { a int }",
  "Project p {}\nTable t { a int [@] }",
  "Project p {}\nTable t { a varchar [@] b e [@] }\nEnum e { x }",
  "Project p {}\nTable t { a int indexes { a [@] (a, `x`) [@] } }",
  "Project p {}\nEnum e { x [@] }",
  "Project p {}\nTable t { a int [pk] }\nRef: t.a - t.a [@]",
  "Project p {}\nTable t { a int [pk] }\nRef r { t.a - t.a [@] }",
  "Project p {}\nTable t { a int }\nTableGroup g [@] { t }",
  "Project p { @ }",
];
