//! One monitor per property.
use crate::report::Ctx;

mod gen1;
mod gen2;
mod hostile;
mod html;
mod links;
mod htmlin;
mod md;
mod mermaid;
mod cli;
pub mod conc;
mod frag;
mod parts;
mod pdf;
mod pics;
mod pkg;
mod read;
mod template;
mod units;
mod web;

pub fn find(p: &str) -> Option<fn(&Ctx)> {
    Some(match p {
        "C01" => gen1::c01,
        "C02" => gen1::c02,
        "C03" => gen1::c03,
        "C04" => gen1::c04,
        "C05" => gen1::c05,
        "C06" => gen1::c06,
        "C07" => gen1::c07,
        "C08" => gen1::c08,
        "C09" => gen2::c09,
        "C10" => read::c10,
        "C11" => read::c11,
        "C12" => pkg::c12,
        "C13" => pkg::c13,
        "C14" => pkg::c14,
        "C15" => pkg::c15,
        "C16" => hostile::c16,
        "C17" => htmlin::c17,
        "C18" => md::c18,
        "C19" => mermaid::c19,
        "C20" => md::c20,
        "C21" => html::c21,
        "C22" => pdf::c22,
        "C23" => units::c23,
        "C27" => conc::c27,
        "C26" => cli::c26,
        "C25" => template::c25,
        "C24" => gen2::c24,
        "C28" => parts::c28,
        "C30" => frag::c30,
        "C31" => links::c31,
        "C32" => pics::c32,
        "C29" => web::c29,
        _ => return None,
    })
}

pub fn level(_p: &str) -> &'static str {
    "exploration"
}
