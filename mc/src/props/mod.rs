use crate::engine::*;

pub mod determinism;
pub mod fidelity;
pub mod files;
pub mod grammar;
pub mod history;
pub mod layout;
pub mod literals;
pub mod places;
pub mod reports;
pub mod total;
pub mod values;

pub struct Prop {
    pub id: &'static str,
    pub families: fn(Tier) -> Vec<Family>,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

const RULE: &str = "one execution = one input text run through the whole parser and compared with the reference model; states = distinct reference verdicts/results; transitions = declarations processed";

const fn prop(id: &'static str, families: fn(Tier) -> Vec<Family>) -> Prop {
    Prop { id, families, rule: RULE, assumptions: &["inputs outside the enumerated alphabets and lengths are not covered"] }
}

pub const ALL: &[Prop] = &[
    prop("C01", total::c01),
    prop("C02", grammar::c02),
    prop("C03", fidelity::c03),
    prop("C04", grammar::c04),
    prop("C05", literals::c05),
    prop("C15", literals::c15),
    prop("C13", values::c13),
    prop("C16", values::c16),
    prop("C18", values::c18),
    prop("C08", files::c08),
    prop("C09", determinism::c09),
    prop("C10", places::c10),
    prop("C12", reports::c12),
    prop("C06", history::c06),
    prop("C07", history::c07),
    prop("C11", history::c11),
    prop("C17", history::c17),
    prop("C14", layout::c14),
    prop("C19", layout::c19),
    prop("C20", values::c20),
];

pub fn find(id: &str) -> Option<&'static Prop> {
    ALL.iter().find(|p| p.id == id)
}
