use crate::fw::Ctx;
mod bfv;
mod hiding;
mod history;
mod math;
mod misuse;
mod pir;
mod pvw;
mod rings;
mod sampling;
mod stats;
mod util;

pub use hiding::probe;
pub use history::child as history_child;

type F = fn(&mut Ctx);
const TABLE: &[(&str, F)] = &[
    ("C01", pir::retrieval),
    ("C02", pir::expansion),
    ("C03", pir::encoding),
    ("C04", bfv::roundtrip),
    ("C05", bfv::linear),
    ("C06", bfv::multiplication),
    ("C07", bfv::galois),
    ("C08", bfv::simd),
    ("C09", bfv::rgsw),
    ("C10", bfv::keyswitch),
    ("C11", math::modulus),
    ("C12", math::ntt),
    ("C13", math::rns),
    ("C14", rings::ring),
    ("C15", rings::modswitch),
    ("C16", pvw::pvw),
    ("C17", hiding::hiding),
    ("C18", sampling::sampling),
    ("C19", util::parameters),
    ("C20", util::integers),
    ("C21", bfv::noise),
    ("C22", misuse::misuse),
    ("C23", bfv::programs),
    ("C24", history::history),
];
pub fn find(id: &str) -> Option<(&'static str, F)> {
    TABLE.iter().find(|(i, _)| *i == id).cloned()
}
