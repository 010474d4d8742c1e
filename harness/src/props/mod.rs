use crate::rep::Report;
mod absurd;
mod alloc;
mod config;
mod crash;
mod devfail;
mod fault;
mod hand;
pub mod logging;
mod path;
mod pure;
mod report;
mod write;

pub type Check = fn(bool) -> Report;
pub fn all() -> Vec<(&'static str, Check)> {
    vec![
        ("C01", alloc::c01),
        ("C02", alloc::c02),
        ("C03", alloc::c03),
        ("C04", alloc::c04),
        ("C05", alloc::c05),
        ("C06", write::c06),
        ("C07", write::c07),
        ("C08", pure::c08),
        ("C09", write::c09),
        ("C10", write::c10),
        ("C11", fault::c11),
        ("C12", crash::c12),
        ("C13", devfail::c13),
        ("C14", absurd::c14),
        ("C15", write::c15),
        ("C16", write::c16),
        ("C17", write::c17),
        ("C18", path::c18),
        ("C19", pure::c19),
        ("C20", pure::c20),
        ("C21", pure::c21),
        ("C22", hand::c22),
        ("C23", pure::c23),
        ("C24", fault::c24),
        ("C25", path::c25),
        ("C26", write::c26),
        ("C27", logging::c27),
        ("C28", report::c28),
        ("C29", config::c29),
    ]
}
