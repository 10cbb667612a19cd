//! The implementation under check, behind catch_unwind.
use crate::explore::Cx;
use dbml_rs::ast::SchemaBlock;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq)]
pub struct E {
  pub msg: String,
  /// raised by a check of the crate (false: by the grammar)
  pub custom: bool,
  pub a: usize,
  pub b: usize,
  pub full: String,
}

pub enum Res<'a> {
  Ok(SchemaBlock<'a>),
  Err(E),
  Panic(String),
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
  e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("?".into())
}

macro_rules! conv {
  ($call:expr, $text:expr) => {
    match catch_unwind(AssertUnwindSafe(|| match $call {
      Ok(b) => Res::Ok(b),
      Err(e) => {
        let (a, b) = match e.location {
          pest::error::InputLocation::Pos(p) => (p, p),
          pest::error::InputLocation::Span((a, b)) => (a, b),
        };
        let (custom, msg) = match &e.variant {
          pest::error::ErrorVariant::CustomError { message } => (true, message.clone()),
          _ => (false, e.variant.message().to_string()),
        };
        Res::Err(E { msg, custom, a, b, full: format!("{e}") })
      }
    })) {
      Ok(r) => r,
      Err(e) => Res::Panic(panic_text(e)),
    }
  };
}

pub fn unchecked<'a>(text: &'a str) -> Res<'a> {
  conv!(dbml_rs::parse_dbml_unchecked(text), text)
}
pub fn checked<'a>(text: &'a str) -> Res<'a> {
  conv!(dbml_rs::parse_dbml(text), text)
}

impl<'g> Cx<'g> {
  pub fn unchecked<'a>(&mut self, text: &'a str) -> Res<'a> {
    self.impl_calls += 1;
    unchecked(text)
  }
  pub fn checked<'a>(&mut self, text: &'a str) -> Res<'a> {
    self.impl_calls += 1;
    checked(text)
  }
}

impl Res<'_> {
  pub fn kind(&self) -> &'static str {
    match self {
      Res::Ok(_) => "accepted",
      Res::Err(_) => "rejected",
      Res::Panic(_) => "panicked",
    }
  }
  pub fn brief(&self) -> String {
    match self {
      Res::Ok(_) => "accepted".into(),
      Res::Err(e) => format!("rejected at {}..{}: {}", e.a, e.b, e.msg.replace('\n', " ")),
      Res::Panic(p) => format!("panicked: {p}"),
    }
  }
}

/// Everything observable about one call, as text.
pub fn observe(r: &Res) -> String {
  match r {
    Res::Ok(d) => {
      let mut k = crate::dump::Sink::new();
      crate::dump::real(&mut k, d);
      format!("ok {:?} {} {:?}", d.input, k.s, k.sp)
    }
    Res::Err(e) => format!("err {e:?}"),
    Res::Panic(p) => format!("panic {p}"),
  }
}
