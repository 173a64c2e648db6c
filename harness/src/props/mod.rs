pub mod eval;
pub mod io;
pub mod mesh;
pub mod project;
pub mod refine;
pub mod sample;
pub mod step;
mod util;
pub mod trim;

use crate::engine::Property;

pub fn all() -> Vec<Property> {
    vec![
        eval::c01(),
        eval::c02(),
        eval::c03(),
        refine::c04(),
        refine::c05(),
        project::c06(),
        project::c07(),
        project::c08(),
        project::c09(),
        sample::c10(),
        sample::c11(),
        mesh::c12(),
        mesh::c13(),
        mesh::c14(),
        trim::c15(),
        trim::c16(),
        trim::c17(),
        trim::c18(),
        trim::c19(),
        io::c20(),
        io::c21(),
        io::c22(),
        io::c23(),
        io::c24(),
        step::c25(),
        step::c26(),
        step::c27(),
        step::c28(),
        util::c29(),
        util::c30(),
    ]
}
pub fn find(id: &str) -> Property {
    match all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no such property: {}", id);
            std::process::exit(2)
        }
    }
}
/// Multiple of every leg's number of cases, by what a case costs: a quick check takes 5 to 25 s.
pub fn boost(id: &str) -> f64 {
    match id {
        "C01" => 15.0,
        "C02" => 8.0,
        "C03" => 10.0,
        "C04" => 25.0,
        "C05" => 30.0,
        "C06" => 8.0,
        "C07" => 15.0,
        "C08" => 12.0,
        "C09" => 10.0,
        "C10" => 12.0,
        "C11" => 20.0,
        "C12" => 12.0,
        "C13" => 15.0,
        "C14" => 40.0,
        "C15" => 20.0,
        "C16" => 12.0,
        "C17" => 4.0,
        "C18" => 1.5,
        "C19" => 15.0,
        "C20" => 12.0,
        "C21" => 20.0,
        "C22" => 10.0,
        "C23" => 6.0,
        "C24" => 10.0,
        "C25" => 4.0,
        "C26" => 12.0,
        "C27" => 3.0,
        "C28" => 6.0,
        "C29" => 120.0,
        "C30" => 80.0,
        _ => 1.0,
    }
}
