//! C08 (compositionality over blocks) and C09 (purity over call histories). No reference model decides these:
//! the implementation's results are compared with each other.
use super::sem::{self, Mode};
use super::util::*;
use crate::dump::{self, Sink};
use crate::explore::{Cx, Space};
use crate::gen::*;
use crate::oracle::{self, Depth};
use crate::real::{self, observe, Res};
use crate::refparse::skip_trivia;
use dbml_rs::ast::{SchemaBlock, TopLevelBlock};
use std::sync::OnceLock;

/* ------------------------------------------------------------------ C08 */

type Blocks = (String, Vec<(usize, usize, usize)>);

fn blocks_of(d: &SchemaBlock) -> Blocks {
  let mut k = Sink::new();
  for b in &d.blocks {
    dump::real_block(&mut k, b);
    k.s.push('\n');
  }
  (std::mem::take(&mut k.s), std::mem::take(&mut k.sp))
}

/// each accessor returns exactly the blocks of its kind, the very ones, in order
fn accessors(cx: &mut Cx, t: &str, d: &SchemaBlock) {
  macro_rules! acc {
    ($name:ident, $kind:ident) => {
      let got: Vec<*const _> = d.$name().into_iter().map(|x| x as *const _).collect();
      let want: Vec<*const _> = d.blocks.iter().filter_map(|b| if let TopLevelBlock::$kind(x) = b { Some(x as *const _) } else { None }).collect();
      if got != want {
        cx.fail(t, concat!(stringify!($name), "() does not return exactly the blocks of that kind, in order"));
      }
    };
  }
  acc!(projects, Project);
  acc!(tables, Table);
  acc!(table_groups, TableGroup);
  acc!(refs, Ref);
  acc!(enums, Enum);
}

/// every part is accepted alone: then so is the concatenation, with the parts' blocks, shifted
fn concat(cx: &mut Cx, parts: &[&str]) {
  let mut t = String::new();
  let mut want: Blocks = Default::default();
  for p in parts {
    if !t.is_empty() {
      t.push('\n');
    }
    let off = t.len();
    match cx.unchecked(p) {
      Res::Ok(d) => {
        let (s, sp) = blocks_of(&d);
        want.0 += &s;
        // an open end may take in the trivia that now follows
        want.1.extend(sp.iter().map(|x| (x.0 + off, x.1 + off, if x.1 == p.len() { usize::MAX } else { x.1 + off })));
      }
      _ => {
        cx.out("part rejected");
        return;
      }
    }
    t += p;
  }
  if !cx.case(&t) {
    return;
  }
  cx.compared += 1;
  match cx.unchecked(&t) {
    Res::Ok(d) => {
      cx.out("accepted");
      let (s, sp) = blocks_of(&d);
      if s != want.0 {
        cx.fail(&t, format!("the blocks are not those of the parts, in order ({} parts)", parts.len()));
      } else if let Err(e) = fit(&t, &sp, &want.1) {
        cx.fail(&t, format!("the spans are not those of the parts, shifted: {e}"));
      }
      accessors(cx, &t, &d);
    }
    r => cx.fail(&t, format!("every part is accepted alone, but together they are {}", r.brief())),
  }
}

fn fit(t: &str, got: &[(usize, usize, usize)], want: &[(usize, usize, usize)]) -> Result<(), String> {
  if got.len() != want.len() {
    return Err(format!("{} spans, expected {}", got.len(), want.len()));
  }
  for (g, w) in got.iter().zip(want) {
    let bx = if w.2 == usize::MAX { skip_trivia(t, w.1) } else { w.2 };
    if g.0 != w.0 || g.1 < w.1 || g.1 > bx {
      return Err(format!("{}..{}, expected {}..{}", g.0, g.1, w.0, w.1));
    }
  }
  Ok(())
}

const GOOD: &[&str] = &[
  "Table a { }",
  "Table s.a as b [k: 'v'] { id int [pk, ref: > a.b] Note: 'n' indexes { id } }",
  "Table \"Note\" { Note int }",
  "Enum e { a b [note: 'x'] }",
  "Enum s.e {}",
  "Ref: a.b > c.d",
  "Ref r: s.a.b <> c.(d, e) [delete: cascade]",
  "Ref { a.b - c.d }",
  "Ref n { a.b < c.d [x] }",
  "TableGroup g { a s.b Note: 'x' }",
  "TableGroup h [c: #fff] { }",
  "Project p { database_type: 'PostgreSQL' }",
  "Project q { Note { 'x' } k: bare words\n }",
  "Note: 'x'",
  "Note { '''y''' }",
  "NOTE:'''é'''",
  "",
  " \n\t",
  "// only a comment",
  "/* é */",
  "Table a { } Table b { }",
  "\n// c\nNote: 'é' // c\n\n",
  "Ref: a.b > c.d // x",
  "table t{a int}ref:t.a>t.b",
];

fn pool() -> Vec<String> {
  let mut v: Vec<String> = GOOD.iter().map(|s| s.to_string()).collect();
  v.extend(small_docs().iter().map(|s| s.to_string()));
  v.extend(valid_docs().iter().map(|s| s.to_string()));
  v.push(airy(&mut kitchen_sink()));
  v.push(compact(&mut kitchen_sink()));
  v
}

pub fn c08(deep: bool) -> Vec<Space> {
  let (p1, p2, p3) = (pool(), pool(), pool());
  let n = p1.len();
  const MIXED: &[&str] = &["Table a { }", "Enum e { a }", "Ref: a.b > c.d", "Note: 'x'", "Project p { }", "TableGroup g { }", "Table a {", "Enum { a }", "Ref: a.b > c", "Note: x", "}", "[k]", "Table a { b }", "'x'", "Project { }", "TableGroup g [ { }", "x", "Indexes { }"];
  let mut v = vec![
    Space::new("sequences", format!("every sequence of up to {} of {n} accepted texts (all block kinds, comments, whole documents)", 3), 0, move |ch, cx| {
      let k = 1 + ch.free(3);
      let parts: Vec<&str> = (0..k).map(|_| ch.of(&p1).as_str()).collect();
      concat(cx, &parts)
    }),
    Space::new("generated", "one block with up to 1 (thorough: 2) deviations of its parts, before, after or between every pair of 8 texts", if deep { 2 } else { 1 }, move |ch, cx| {
      let mut d = document(ch, 1);
      let t = if ch.flag() { compact(&mut d) } else { airy(&mut d) };
      let m = [0, 2, 5, 7, 9, 13, 18, 21];
      let (a, b) = (&p2[*ch.of(&m)], &p2[*ch.of(&m)]);
      match ch.free(4) {
        0 => concat(cx, &[a, &t]),
        1 => concat(cx, &[&t, b]),
        2 => concat(cx, &[a, &t, b]),
        _ => concat(cx, &[&t, a, &t]),
      }
    }),
    Space::new("kinds", format!("every sequence of {} one-kind texts over the kinds: accessors and order", if deep { 7 } else { 6 }), 0, move |ch, cx| {
      let k = if deep { 7 } else { 6 };
      let parts: Vec<&str> = (0..k).map(|_| *ch.of(&["Table a { }", "Enum e { a }", "Ref: a.b > c.d", "Note: 'x'", "Project p { }", "TableGroup g { }"])).collect();
      concat(cx, &parts)
    }),
    Space::new("well-formed-or-not", "every sequence of up to 3 (thorough: 4) of 18 well-formed and malformed texts: accepted exactly if the recogniser accepts", 0, move |ch, cx| {
      let k = 1 + ch.free(if deep { 4 } else { 3 });
      let parts: Vec<&str> = (0..k).map(|_| *ch.of(MIXED)).collect();
      let t = parts.join("\n");
      if cx.case(&t) {
        oracle::syntax(cx, &t, Depth::Skeleton)
      }
    }),
    Space::new("repeats", "n copies of each text, n up to 12 and 16, 17, 32, 64, 100, 256, 1000 of the small ones", 0, move |ch, cx| {
      let t = ch.of(&p3).as_str();
      let n = *ch.of(&[2usize, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 32, 64, 100, 256, 1000]);
      if n * t.len() < 100_000 {
        concat(cx, &vec![t; n])
      }
    }),
  ];
  if deep {
    let p = pool();
    v.push(Space::new("sequences-4", "every sequence of 4 of the 24 short texts", 0, move |ch, cx| {
      let parts: Vec<&str> = (0..4).map(|_| p[..24][ch.free(24)].as_str()).collect();
      concat(cx, &parts)
    }));
  }
  v
}

/* ------------------------------------------------------------------ C09 */

/// accepted, rejected by the grammar and rejected by each kind of rule; near twins of each other
fn inputs() -> &'static Vec<String> {
  static I: OnceLock<Vec<String>> = OnceLock::new();
  I.get_or_init(|| {
    let v = [
      "Project p {}",
      "Project p {}\nTable t as x { a int [pk] b int [ref: > t.a] }\nTableGroup g { t }",
      "Project p {}\nTable t as x { a int [pk] b int [ref: > u.a] }\nTableGroup g { x }",
      "Project p {}\nTable u as x { a int [pk] }\nRef: x.a - x.a",
      "Project p {}\nTable s.t { e e [default: on] }\nEnum e { on }",
      "Project p {}\nTable s.t { e e [default: off] }\nEnum e { on }",
      "Project p { a: 1 a: 2 }",
      "Table t { }",
      "",
      "Table t {",
      "Project p {}\nTable t { a int\n b }",
      "Project p {}\nTable t { a int a int }",
      "Project p {}\nTable t { a varchar(2) [default: 'é'] }",
      "Project p {}\nTable t { a varchar(1) [default: 'éa'] }",
      "Project p {}\nTable t { a int indexes { a [unique] a [unique] } }",
      "Project p {}\nTable t { a int [pk] b int [pk] }",
      "Project p {}\nNote: 'x",
      "Note: 'é'",
      "Project p {}\nTable t { a int [unique] b text }\nRef: t.b > t.a",
      "Project p {}\nTable t { a int [unique] b int }\nRef: t.b > t.a\nRef: t.b > t.a",
      "Project p {}\nTable t { a int [unique] b int }\nRef: t.b > t.a [delete: cascade]",
      "Project p {}\nTable t { a int[] [ref: > q.t.a] }",
      "Project p {}\nTable t { a int [default: 99999999999999999999] }",
      "Project p { database_type: 'MySQL' }\nTable \"é\" { \"ü\" \"double precision\" }",
    ];
    let mut v: Vec<String> = v.iter().map(|s| s.to_string()).collect();
    v.push(airy(&mut kitchen_sink()));
    v
  })
}

/// what a fresh process observes for (input, checked): the call is its first
fn fresh_of(v: &[String]) -> Vec<[String; 2]> {
  let me = std::env::current_exe().expect("exe");
  let base = if std::path::Path::new("/dev/shm").is_dir() { std::path::PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
  let dir = base.join(format!("mc-c09-{}", std::process::id()));
  std::fs::create_dir_all(&dir).expect("scratch");
  let v = v
    .iter()
    .map(|t| {
      let f = dir.join("in");
      std::fs::write(&f, t).expect("scratch");
      ["u", "c"].map(|w| {
        let o = std::process::Command::new(&me).arg("oneshot").arg(&f).arg(w).output().expect("oneshot");
        if o.stdout.len() < 4 {
          return format!("no result: {:?}", o.status);
        }
        String::from_utf8_lossy(&o.stdout[4..]).into_owned()
      })
    })
    .collect();
  let _ = std::fs::remove_dir_all(&dir);
  v
}

fn fresh() -> &'static Vec<[String; 2]> {
  static F: OnceLock<Vec<[String; 2]>> = OnceLock::new();
  F.get_or_init(|| fresh_of(inputs()))
}

/// texts of one length, so that a history can overwrite one with another in the same place;
/// several differ from a neighbour in a single byte only
fn twins() -> &'static (Vec<String>, Vec<[String; 2]>) {
  static T: OnceLock<(Vec<String>, Vec<[String; 2]>)> = OnceLock::new();
  T.get_or_init(|| {
    let mut v: Vec<String> = [
      "Project p {}\nTable t as x { a int [pk] b int [ref: > t.a] }\nTableGroup g { x }",
      "Project p {}\nTable t as x { a int [pk] b int [ref: > u.a] }\nTableGroup g { x }",
      "Project p {}\nTable t as x { a int [pk] b int [ref: > t.a] }\nTableGroup g { y }",
      "Project p {}\nTable t as x { a int [pk] b int [ref: > t.b] }\nTableGroup g { x }",
      "Project p {}\nTable t as x { a int [pk] b int [ref: > t.a] }\nTableGroup g { t }",
      "Project p {}\nTable t as x { a int [pk] b int [ref: > t.a] }\nTableGroup g ( t }",
      "Project p {}\nEnum e { x }\nTable t { a e [default: x] }",
      "Project p {}\nEnum e { x }\nTable t { a e [default: y] }",
      "Project p {}\nEnum f { x }\nTable t { a e [default: x] }",
      "Project p {}\nNote: 'x'",
      "Project p {}\nNote: 'x ",
      "Project p {}\nNote: 'é",
      "",
      "Project p {}\nTable s.t { a int [pk]\n b int }\nRef: s.t.b > s.t.a",
      "Project p {}\nTable t.s { a int [pk]\n b int }\nRef: s.t.b > s.t.a",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    let n = v.iter().map(|s| s.len()).max().unwrap();
    for s in &mut v {
      s.push_str(&" ".repeat(n - s.len()));
    }
    let f = fresh_of(&v);
    (v, f)
  })
}

/// a history of calls on one buffer, overwritten in place before each
fn in_place(cx: &mut Cx, ops: &[(usize, bool)]) {
  let (inp, want) = twins();
  let name: String = ops.iter().map(|(i, c)| format!("{}(twin {i}) ", if *c { "parse_dbml" } else { "parse_dbml_unchecked" })).collect();
  let name = format!("{name}in one buffer");
  if !cx.case(&name) {
    return;
  }
  let mut buf = inp[0].clone().into_bytes();
  for (k, (i, c)) in ops.iter().enumerate() {
    buf.copy_from_slice(inp[*i].as_bytes());
    let got = call(cx, std::str::from_utf8(&buf).unwrap(), *c);
    cx.compared += 1;
    if got != want[*i][*c as usize] {
      cx.fail(&name, format!("call {} of the history gives {} but a fresh process gives {} for {:?}", k + 1, cut(&got), cut(&want[*i][*c as usize]), inp[*i]));
      return;
    }
  }
  cx.out("same as fresh");
}

fn call(cx: &mut Cx, t: &str, checked: bool) -> String {
  cx.input(t);
  let r = if checked { cx.checked(t) } else { cx.unchecked(t) };
  observe(&r)
}

fn history(cx: &mut Cx, ops: &[(usize, bool)], thread: bool) {
  let (inp, want) = (inputs(), fresh());
  let name: String = ops.iter().map(|(i, c)| format!("{}({i}) ", if *c { "parse_dbml" } else { "parse_dbml_unchecked" })).collect();
  let name = format!("{name}{}", if thread { "each on a new thread" } else { "" });
  if !cx.case(&name) {
    return;
  }
  for (k, (i, c)) in ops.iter().enumerate() {
    let got = if thread {
      std::thread::scope(|s| s.spawn(|| observe(&if *c { real::checked(&inp[*i]) } else { real::unchecked(&inp[*i]) })).join().unwrap_or("thread died".into()))
    } else {
      call(cx, &inp[*i], *c)
    };
    cx.compared += 1;
    if got != want[*i][*c as usize] {
      cx.fail(&name, format!("call {} of the history gives {} but a fresh process gives {} for {:?}", k + 1, cut(&got), cut(&want[*i][*c as usize]), inp[*i]));
      return;
    }
  }
  cx.out("same as fresh");
}

fn cut(s: &str) -> String {
  s.chars().take(300).collect()
}

/// checked and unchecked results of one text agree as far as they must; a repetition changes nothing
pub fn agree(cx: &mut Cx, t: &str) {
  let u = cx.unchecked(t);
  let c = cx.checked(t);
  cx.compared += 2;
  match (&u, &c) {
    (Res::Panic(p), _) | (_, Res::Panic(p)) => cx.fail(t, format!("panicked: {p}")),
    (Res::Err(_), Res::Ok(_)) => cx.fail(t, "the checked parser accepts what the unchecked parser rejects"),
    (Res::Err(a), Res::Err(b)) => {
      if format!("{a:?}") != format!("{b:?}") {
        cx.fail(t, format!("both reject, with different errors: {a:?} and {b:?}"))
      } else {
        cx.out("rejected alike")
      }
    }
    (Res::Ok(a), Res::Ok(b)) => {
      if a.input != t || b.input != t {
        cx.fail(t, "the document does not carry its input")
      }
      if observe(&u) != observe(&c) {
        cx.fail(t, "the checked parser returns another document than the unchecked one")
      } else {
        cx.out("accepted alike")
      }
    }
    (Res::Ok(a), Res::Err(_)) => {
      if a.input != t {
        cx.fail(t, "the document does not carry its input")
      }
      cx.out("rejected by a rule")
    }
  }
  // again, from another place in memory
  let big = format!("\n{t}}} Table x {{");
  let part = &big[1..1 + t.len()];
  let (u2, c2) = (cx.checked(part), cx.unchecked(part));
  cx.compared += 2;
  if observe(&c2) != observe(&u) || observe(&u2) != observe(&c) {
    cx.fail(t, "the second call with the same text gives another result");
  }
}

pub fn c09(deep: bool) -> Vec<Space> {
  let n = inputs().len();
  fresh();
  let tw = twins().0.len();
  let one = |mut s: Space| {
    s.threads = 1;
    s
  };
  let mut v = vec![
    one(Space::new("histories", format!("every history of up to 2 (thorough: 3) calls over {n} inputs x two entry points, against fresh processes"), 0, move |ch, cx| {
      let k = 1 + ch.free(if deep { 3 } else { 2 });
      let ops: Vec<_> = (0..k).map(|_| (ch.free(n), ch.flag())).collect();
      history(cx, &ops, false)
    })),
    one(Space::new("long-histories", "every history of 3 (thorough: 4) calls over 12 (thorough: 9) inputs x two entry points", 0, move |ch, cx| {
      const PICK: [usize; 12] = [1, 9, 19, 2, 7, 5, 4, 12, 3, 11, 24, 22];
      let (k, m) = if deep { (4, 9) } else { (3, 12) };
      let ops: Vec<_> = (0..k).map(|_| (PICK[ch.free(m)], ch.flag())).collect();
      history(cx, &ops, false)
    })),
    one(Space::new("repeats", "an input called 1..10, 16, 32, 64, 100, 256 (thorough: 1..40, 64, 127..129, 255..257, 1000) times, then another", 0, move |ch, cx| {
      let times: Vec<usize> = if deep { (1..41).chain([64, 127, 128, 129, 255, 256, 257, 1000]).collect() } else { (1..11).chain([16, 32, 64, 100, 256]).collect() };
      let (i, c) = (ch.free(n), ch.flag());
      let k = *ch.of(&times);
      let (j, e) = (ch.free(3) * 9, ch.flag());
      let mut ops = vec![(i, c); if i + 1 == n { k.min(100) } else { k }];
      ops.push((j, e));
      history(cx, &ops, false)
    })),
    one(Space::new("in-place", format!("every history of up to 3 (thorough: 4 over the first 10) calls on one buffer, overwritten in place with one of {tw} texts of the same length"), 0, move |ch, cx| {
      let k = 1 + ch.free(if deep { 4 } else { 3 });
      let m = if k == 4 { 10 } else { tw };
      let ops: Vec<_> = (0..k).map(|_| (ch.free(m), ch.flag())).collect();
      in_place(cx, &ops)
    })),
    one(Space::new("threads", "every pair of calls, each on a thread of its own", 0, move |ch, cx| {
      let ops: Vec<_> = (0..2).map(|_| (ch.free(n), ch.flag())).collect();
      history(cx, &ops, true)
    })),
    Space::new("documents", "one block with up to 2 (thorough: 3) deviations: both entry points, twice", if deep { 3 } else { 2 }, |ch, cx| {
      let mut d = document(ch, 1);
      let mut t = compact(&mut d);
      if ch.flag() {
        t = format!("Project p {{}}\n{t}")
      }
      if cx.case(&t) {
        agree(cx, &t)
      }
    }),
    Space::new("tokens", "every sequence of up to 2 (thorough: 3) tokens in every syntactic context: both entry points, twice", 0, move |ch, cx| {
      let c = ch.of(CONTEXTS);
      let n = ch.free(if deep { 4 } else { 3 });
      let s: String = (0..n).map(|_| format!("{} ", ch.of(c.tokens))).collect();
      let t = format!("{}{s}{}", c.pre, c.post);
      if cx.case(&t) {
        agree(cx, &t)
      }
    }),
  ];
  v.extend(sem::every(deep as usize, Mode::Pure));
  v
}
