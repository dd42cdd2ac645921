pub use mc_isolation as isolation;
use mc_lines::{lifetime, matching, store};
use mc_selection as selection;
use mc_texts::{display, parts, resolvers, tokens};
use mc_types as types;

use crate::engine::Space;

pub fn spaces(id: &str, thorough: bool) -> Option<Vec<Space>> {
    Some(match id {
        "C01" => tokens::c01(thorough),
        "C02" => tokens::c02(thorough),
        "C03" => tokens::c03(thorough),
        "C04" => with(store::c04(thorough), types::c04(thorough)),
        "C05" => with(store::c05(thorough), types::c05(thorough)),
        "C06" => with(store::c06(thorough), types::c06(thorough)),
        "C07" => with(matching::c07(thorough), types::c07(thorough)),
        "C08" => with(matching::c08(thorough), types::c08(thorough)),
        "C09" => selection::c09(thorough),
        "C10" => selection::c10(thorough),
        "C11" => selection::c11(thorough),
        "C12" => selection::c12(thorough),
        "C13" => selection::c13(thorough),
        "C14" => selection::c14(thorough),
        "C15" => with(matching::c15(thorough), types::c15(thorough)),
        "C16" => resolvers::c16(thorough),
        "C17" => resolvers::c17(thorough),
        "C18" => resolvers::c18(thorough),
        "C19" => resolvers::c19(thorough),
        "C20" => resolvers::c20(thorough),
        "C21" => resolvers::c21(thorough),
        "C22" => with(display::c22(thorough), types::c22(thorough)),
        "C23" => isolation::c23(thorough),
        "C24" => with(isolation::c24(thorough), types::c24(thorough)),
        "C25" => with(store::c25(thorough), types::c25(thorough)),
        "C26" => parts::c26(thorough),
        "C27" => lifetime::c27(thorough),
        _ => return None,
    })
}

fn with(mut a: Vec<Space>, b: Vec<Space>) -> Vec<Space> {
    a.extend(b);
    a
}
