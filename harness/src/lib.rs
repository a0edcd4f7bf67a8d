//! Property-based checks of micromath: see ../DESIGN.md.

pub mod configs;
pub mod engine;
pub mod floats;
pub mod gen;
pub mod generic;
pub mod lost;
pub mod order;
pub mod ops;
pub mod oracle;
pub mod quats;
pub mod stats;
pub mod vectors;
pub mod vm;
pub mod wrapper;

use engine::Property;

pub fn properties() -> Vec<(&'static str, fn() -> Property)> {
    vec![
        ("C01", floats::c01),
        ("C02", floats::c02),
        ("C03", floats::c03),
        ("C04", floats::c04),
        ("C05", floats::c05),
        ("C06", floats::c06),
        ("C07", floats::c07),
        ("C08", floats::c08),
        ("C09", floats::c09),
        ("C10", floats::c10),
        ("C11", floats::c11),
        ("C12", floats::c12),
        ("C13", floats::c13),
        ("C14", floats::c14),
        ("C15", floats::c15),
        ("C16", wrapper::c16),
        ("C17", wrapper::c17),
        ("C18", wrapper::c18),
        ("C19", wrapper::c19),
        ("C20", vm::c20),
        ("C21", wrapper::c21),
        ("C22", vectors::c22),
        ("C23", vectors::c23),
        ("C24", vectors::c24),
        ("C25", vectors::c25),
        ("C26", vectors::c26),
        ("C27", quats::c27),
        ("C28", quats::c28),
        ("C29", quats::c29),
        ("C30", quats::c30),
        ("C31", quats::c31),
        ("C32", stats::c32),
        ("C33", stats::c33),
        ("C34", configs::c34),
        ("C36", generic::c36),
        ("C37", generic::c37),
        ("C38", generic::c38),
        ("C39", floats::c39),
        ("C40", lost::c40),
        ("C41", order::c41),
    ]
}
