//! The scenarios, one per property.

use crate::engine::{entry, Entry};

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;

pub fn all() -> Vec<Entry> {
    vec![entry::<c01::C01>(), entry::<c02::C02>(), entry::<c03::C03>(), entry::<c04::C04>(), entry::<c05::C05>(), entry::<c06::C06>(), entry::<c07::C07>(), entry::<c08::C08>(), entry::<c09::C09>(), entry::<c10::C10>(), entry::<c11::C11>(), entry::<c12::C12>(), entry::<c13::C13>()]
}
