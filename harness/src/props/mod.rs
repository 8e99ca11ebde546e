mod c01;
mod c02;
mod c03;
mod c04;
mod c13;
mod c14;
mod c05;
mod c08;
mod c10;
mod c17;
mod c11;
mod c12;
mod c15;
mod c20;
pub mod parts;
mod c06;
mod c09;
mod c07;
mod c16;
mod c18;
mod c19;
pub mod autos;
pub mod common;
pub mod deep;
pub mod wide;

use crate::Family;

pub const ALL: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13",
    "C14", "C15", "C16", "C17", "C18", "C19", "C20",
];

/// Factor on the case counts of the random families in the quick tier: chosen so that every
/// property gets about 15 seconds of 8 cores.
fn quick_factor(p: &str) -> u64 {
    match p {
        "C13" => 10,
        "C06" | "C09" | "C11" | "C12" | "C20" => 6,
        "C14" | "C19" => 5,
        "C07" => 4,
        "C01" | "C02" | "C03" => 3,
        "C04" | "C05" | "C08" | "C10" => 2,
        _ => 1,
    }
}

pub fn families(p: &str) -> Vec<Family> {
    let mut l = base_families(p);
    for f in l.iter_mut() {
        if !f.enumerated && !f.name.starts_with("giant") {
            f.quick = (f.quick * quick_factor(p)).min(f.thorough);
        }
    }
    l
}

fn base_families(p: &str) -> Vec<Family> {
    match p {
        "C01" => c01::families(),
        "C02" => c02::families(),
        "C03" => c03::families(),
        "C04" => c04::families(),
        "C13" => c13::families(),
        "C14" => c14::families(),
        "C05" => c05::families(),
        "C06" => c06::families(),
        "C09" => c09::families(),
        "C11" => c11::families(),
        "C12" => c12::families(),
        "C15" => c15::families(),
        "C20" => c20::families(),
        "C08" => c08::families(),
        "C10" => c10::families(),
        "C17" => c17::families(),
        "C07" => c07::families(),
        "C16" => c16::families(),
        "C18" => c18::families(),
        "C19" => c19::families(),
        _ => vec![],
    }
}
