pub mod api;
pub mod effort;
pub mod eq;
pub mod history;
pub mod names;
pub mod payload;
pub mod reject;
pub mod round;
pub mod san;
pub mod stream;
pub mod types;
pub mod util;
pub mod walk;
pub mod write;

use crate::fw::Check;

pub fn all() -> Vec<Check> {
    vec![
        round::c01(), round::c02(), round::c03(), round::c04(), reject::c05(), reject::c06(), names::c07(), stream::c08(), reject::c09(),
        types::c10(), types::c11(), types::c12(), types::c13(), types::c14(), types::c15(), walk::c16(), walk::c17(), history::c18(), stream::c19(), history::c20(), effort::c21(), payload::c23(), payload::c24(), api::c25(), eq::c26(), write::c27(),
    ]
}
