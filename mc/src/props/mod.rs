use crate::harness::PropDef;

pub mod util;
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod cli;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c23;
pub mod c24;

pub fn all() -> Vec<PropDef> {
    vec![c01::def(), c01::def22(), c02::def(), c03::def03(), c03::def04(), c03::def21(), c05::def(), c06::def(), c07::def(), c08::def08(), c08::def09(), c08::def10(), c11::def(), c12::def(), c13::def(), c14::def(), c15::def(), c16::def(), c17::def(), c18::def(), c19::def(), c20::def(), c23::def(), c24::def()]
}
