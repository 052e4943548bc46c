//! Registry of properties.
use crate::explore::Family;

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
#[cfg(feature = "http")]
pub mod c09http;

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub families: Vec<Family>,
}

pub fn get(id: &str, thorough: bool) -> Prop {
    match id {
        "C01" => c01::prop(thorough),
        "C02" => c02::prop(thorough),
        "C03" => c03::prop(thorough),
        "C04" => c04::prop(thorough),
        "C05" => c05::prop(thorough),
        "C06" => c06::prop(thorough),
        "C08" => c08::prop(thorough),
        "C09" => c09::prop(thorough),
        "C10" => c10::prop(thorough),
        "C11" => c11::prop(thorough),
        "C12" => c12::prop(thorough),
        "C13" => c13::prop(thorough),
        "C14" => c14::prop(thorough),
        "C15" => c15::prop(thorough),
        "C16" => c16::prop(thorough),
        "C17" => c17::prop(thorough),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
}
