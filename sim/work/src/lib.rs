//! The simulated workloads over fem_2d, their oracles and reference models.
#![allow(static_mut_refs)]
#![allow(clippy::too_many_arguments)]
pub mod asm;
pub mod common;
pub mod fields;
pub mod gen;
pub mod io;
pub mod mesh;
pub mod model;
pub mod pipe;
pub mod s05;
pub mod solve;
pub mod stub;

use simrt::run::Scenario;

pub struct Item {
    pub scenario: Scenario,
    pub quick: u64,
    pub thorough: u64,
}
pub struct Prop {
    pub id: &'static str,
    pub items: Vec<Item>,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: Vec<&'static str>,
}

pub const COUNTER_NAMES: &[&str] = common::COUNTER_NAMES;

pub fn item(name: &'static str, plan: fn(u32) -> Option<u32>, main: fn(u32, u32), quick: u64, thorough: u64) -> Item {
    Item { scenario: Scenario { name, plan, main }, quick, thorough }
}

pub fn props() -> Vec<Prop> {
    vec![asm::s01(), asm::s02(), asm::s03(), asm::s04(), s05::prop(), solve::s06(), solve::s07(), solve::s08(), solve::s09(), solve::s10(), io::s11(), fields::s12(), io::s13(), mesh::s14(), fields::s15(), pipe::s16(), mesh::s17(), pipe::s18()]
}
