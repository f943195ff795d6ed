use crate::engine::Prop;
pub mod derive;
pub mod errors;
pub mod history;
pub mod read;
pub mod refusals;
pub mod refuse;
pub mod sample;
pub mod state;
pub mod structs;
pub mod total;
pub mod values;
pub mod work;
pub mod writer;
pub static CORE: &[Prop] = &[
    read::C01, read::C02, read::C03, total::C04, total::C05, history::C06, total::C07, values::C08, values::C09, values::C10, values::C11,
    values::C12, structs::C13, structs::C14, writer::C15, writer::C16, history::C17, history::C18, structs::C19, state::C23, errors::C25, work::C26, refusals::C27, state::C28, refuse::C29,
];
/// these need the derived types of the lab
pub static DERIVE: &[Prop] = &[derive::C20, derive::C21, derive::C22, derive::C24, derive::C30];
