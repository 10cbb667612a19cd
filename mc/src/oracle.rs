//! Comparisons of one document's real result with the reference model.
use crate::dump::{self, Sink};
use crate::explore::Cx;
use crate::mirror::*;
use crate::real::Res;
use crate::{refparse, refsem};
use std::cell::RefCell;

thread_local! {
  static BUF: RefCell<(Sink, Sink)> = RefCell::new((Sink::new(), Sink::new()));
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Depth {
  Verdict,
  Skeleton,
  Spans,
}

fn first_diff(a: &str, b: &str) -> String {
  let k = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
  let cut = |s: &str| {
    let from = (0..=k.saturating_sub(60)).rev().find(|i| s.is_char_boundary(*i)).unwrap_or(0);
    let to = (k + 60..).find(|i| *i >= s.len() || s.is_char_boundary(*i)).unwrap().min(s.len());
    s[from..to].to_string()
  };
  format!("expected ...{}... got ...{}...", cut(b), cut(a))
}

pub fn spans_fit(text: &str, real: &[(usize, usize, usize)], want: &[(usize, usize, usize)]) -> Result<(), String> {
  if real.len() != want.len() {
    return Err(format!("{} spans, expected {}", real.len(), want.len()));
  }
  for (r, w) in real.iter().zip(want) {
    let bx = if w.2 == usize::MAX { refparse::skip_trivia(text, w.1) } else { w.2 };
    if r.0 != w.0 || r.1 < w.1 || r.1 > bx {
      return Err(format!("span {}..{} ({:?}), expected {}..{}", r.0, r.1, text.get(r.0..r.1), w.0, w.1));
    }
  }
  Ok(())
}

/// Compares a real parse with the mirror document; None if they agree.
pub fn same(text: &str, real: &dbml_rs::ast::SchemaBlock, want: &Doc, depth: Depth) -> Option<String> {
  BUF.with(|b| {
    let (k, m) = &mut *b.borrow_mut();
    k.clear();
    m.clear();
    dump::real(k, real);
    dump::mirror(m, want);
    if k.s != m.s {
      return Some(format!("the AST is not what was declared: {}", first_diff(&k.s, &m.s)));
    }
    if real.input != text {
      return Some("the document does not carry its input".into());
    }
    if depth == Depth::Spans {
      if let Err(e) = spans_fit(text, &k.sp, &m.sp) {
        return Some(format!("a span is wrong: {e}"));
      }
    }
    None
  })
}

/// Unchecked parse against an expectation (None: must be rejected).
pub fn against(cx: &mut Cx, text: &str, want: Option<&Doc>, depth: Depth) {
  let r = cx.unchecked(text);
  cx.compared += 1;
  match (&r, want) {
    (Res::Panic(p), _) => cx.fail(text, format!("panicked: {p}")),
    (Res::Err(_), None) => cx.out("rejected"),
    (Res::Err(_), Some(_)) => cx.fail(text, format!("should be accepted, but is {}", r.brief())),
    (Res::Ok(_), None) => cx.fail(text, "should be rejected, but is accepted"),
    (Res::Ok(d), Some(w)) => {
      cx.out("accepted");
      if depth != Depth::Verdict {
        if let Some(e) = same(text, d, w, depth) {
          cx.fail(text, e)
        }
      }
    }
  }
}

/// Unchecked parse against the reference recogniser.
pub fn syntax(cx: &mut Cx, text: &str, depth: Depth) {
  let want = refparse::parse(text);
  against(cx, text, want.as_ref(), depth)
}

/// The expected outcome of the checked parser: None for a syntax error, else the violations.
pub fn expect(text: &str) -> Option<Vec<refsem::Viol>> {
  refparse::parse(text).map(|d| refsem::check(&d))
}

/// Checked parse against the reference checker: accepted or rejected.
pub fn verdict_only(cx: &mut Cx, text: &str) {
  let r = cx.checked(text);
  cx.compared += 1;
  match (&r, &expect(text)) {
    (Res::Panic(p), _) => cx.fail(text, format!("panicked: {p}")),
    (Res::Ok(_), None) => cx.fail(text, "is not DBML, but is accepted"),
    (Res::Ok(_), Some(v)) => match v.first() {
      None => cx.out("accepted"),
      Some(x) => cx.fail(text, format!("is accepted, but breaks a rule: {:?} at {}..{}", x.msg, x.sp.a, x.sp.b)),
    },
    (Res::Err(_), None) => cx.out("syntax error"),
    (Res::Err(_), Some(v)) => match v.first() {
      None => cx.fail(text, format!("breaks no rule, but is {}", r.brief())),
      Some(x) => cx.out(x.msg.split(':').next().unwrap_or("")),
    },
  }
}

/// Checked parse against the reference checker, as far as it concerns the rules of one property: a document is not
/// rejected for them if it keeps them, and not accepted if it breaks them.
pub fn rule(cx: &mut Cx, text: &str, prop: &str) {
  let r = cx.checked(text);
  cx.compared += 1;
  let Some(v) = expect(text) else { return cx.out("syntax error") };
  let mine = v.iter().find(|x| x.rule == prop);
  match (&r, mine) {
    (Res::Panic(p), _) => cx.fail(text, format!("panicked: {p}")),
    (Res::Ok(_), Some(x)) => cx.fail(text, format!("is accepted, but breaks a rule: {:?} at {}..{}", x.msg, x.sp.a, x.sp.b)),
    (Res::Ok(_), None) => cx.out("accepted"),
    (Res::Err(e), None) if v.is_empty() && (!e.custom || refsem::about(&e.msg).contains(&prop)) => cx.fail(text, format!("breaks no rule, but is {}", r.brief())),
    (Res::Err(_), None) => cx.out("rejected for other rules"),
    (Res::Err(_), Some(x)) => cx.out(x.msg.split(':').next().unwrap_or("")),
  }
}

/// Checked parse against the reference checker: verdict, message and location.
pub fn semantics(cx: &mut Cx, text: &str) {
  let r = cx.checked(text);
  cx.compared += 1;
  let want = expect(text);
  verdict(cx, text, &r, &want)
}

/// Both entry points return, and an error can be displayed.
pub fn total(cx: &mut Cx, text: &str) {
  for checked in [false, true] {
    let r = if checked { cx.checked(text) } else { cx.unchecked(text) };
    cx.compared += 1;
    match &r {
      Res::Panic(p) => cx.fail(text, format!("{} panicked: {p}", if checked { "parse_dbml" } else { "parse_dbml_unchecked" })),
      Res::Ok(_) => cx.out("accepted"),
      Res::Err(e) => {
        if e.a > e.b || text.get(e.a..e.b).is_none() {
          cx.fail(text, format!("the error is located at {}..{}, which is no range of the input", e.a, e.b));
        } else if e.full.is_empty() {
          cx.fail(text, "the error displays as nothing");
        }
        cx.out(if e.custom { "rejected by a check" } else { "rejected by the grammar" })
      }
    }
  }
}

pub fn verdict(cx: &mut Cx, text: &str, r: &Res, want: &Option<Vec<refsem::Viol>>) {
  match (r, want) {
    (Res::Panic(p), _) => cx.fail(text, format!("panicked: {p}")),
    (Res::Ok(_), None) => cx.fail(text, "is not DBML, but is accepted"),
    (Res::Err(_), None) => cx.out("syntax error"),
    (Res::Ok(_), Some(v)) => match v.first() {
      None => cx.out("accepted"),
      Some(x) => cx.fail(text, format!("is accepted, but breaks a rule: {:?} at {}..{}", x.msg, x.sp.a, x.sp.b)),
    },
    (Res::Err(e), Some(v)) => {
      if v.is_empty() {
        return cx.fail(text, format!("breaks no rule, but is {}", r.brief()));
      }
      let named: Vec<_> = v.iter().filter(|x| e.custom && x.msg == e.msg).collect();
      if named.is_empty() {
        let l: Vec<_> = v.iter().map(|x| x.msg.as_str()).collect();
        return cx.fail(text, format!("is {}, but breaks only {l:?}", r.brief()));
      }
      {
        let fits = |x: &&&refsem::Viol| {
          let bx = if x.sp.bx == usize::MAX { refparse::skip_trivia(text, x.sp.b) } else { x.sp.bx };
          e.a == x.sp.a && e.b >= x.sp.b && e.b <= bx
        };
        if named.iter().find(fits).is_none() {
          let l: Vec<_> = named.iter().map(|x| format!("{}..{}", x.sp.a, x.sp.b)).collect();
          return cx.fail(text, format!("is {}, but this rule is broken at {l:?}", r.brief()));
        }
      }
      let m = e.msg.split(':').next().unwrap_or("");
      cx.out(m);
    }
  }
}
