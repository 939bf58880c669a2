pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c06;
pub mod c07;
pub mod c09;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c22;

use crate::run::Prop;
pub static ALL: &[&Prop] = &[
    &c01::P, &c02::P, &c03::P, &c04::P4, &c04::P5, &c06::P, &c07::P7, &c07::P8, &c07::P10, &c09::P,
    &c11::P, &c12::P, &c13::P, &c14::P, &c15::P,
    &c16::P16, &c16::P17, &c18::P, &c19::P, &c20::P, &c21::P, &c22::P,
];
