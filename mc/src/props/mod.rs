use crate::explore::Space;
mod c01;
mod c02;
mod c23;
mod c24;
mod edits;
mod equiv;
mod hist;
mod lang;
#[cfg(feature = "hook")]
mod query;
mod sem;
mod util;

const RULES: [&str; 9] = ["C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18"];

pub fn spaces(prop: &str, deep: bool) -> Option<Vec<Space>> {
  Some(match prop {
    "C01" => c01::spaces(deep),
    "C02" => c02::spaces(deep),
    "C03" => lang::c03(deep),
    "C04" => lang::c04(deep),
    "C05" => lang::c05(deep),
    "C06" => lang::c06(deep),
    "C07" => lang::c07(deep),
    "C08" => hist::c08(deep),
    "C09" => hist::c09(deep),
    "C10" | "C11" | "C12" | "C13" | "C14" | "C15" | "C16" | "C17" | "C18" => sem::of(RULES.iter().find(|r| **r == prop)?, deep),
    "C19" => sem::c19(deep),
    "C20" => equiv::c20(deep),
    "C21" => equiv::c21(deep),
    #[cfg(feature = "hook")]
    "C22" => query::c22(deep),
    "C23" => c23::spaces(deep),
    "C24" => c24::spaces(deep),
    _ => return None,
  })
}
