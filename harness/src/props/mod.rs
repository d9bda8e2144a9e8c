use crate::runner::Run;

mod block;
mod build;
mod contracts;
mod dynpre;
mod equiv;
mod fault;
mod exec;
mod system;
mod inspect;
mod hist;
mod keyless;
mod limits;
mod merge;
mod ops;
mod oracle;
mod sched;
mod statetest;
pub use statetest::child as statetest_child;

pub fn lookup(p: &str) -> Option<fn(&Run)> {
    Some(match p {
        "C34" => build::c34,
        "C35" => contracts::c35,
        "C31" => statetest::c31,
        "C32" => dynpre::c32,
        "C33" => keyless::c33,
        "C22" => block::c22,
        "C24" => block::c24,
        "C25" => sched::c25,
        "C26" => merge::c26,
        "C28" => fault::c28,
        "C23" => block::c23,
        "C10" => oracle::c10,
        "C15" => system::c15,
        "C19" => keyless::c19,
        "C20" => keyless::c20,
        "C21" => keyless::c21,
        "C14" => inspect::c14,
        "C13" => hist::c13,
        "C11" => oracle::c11,
        "C12" => oracle::c12,
        "C01" => equiv::c01,
        "C29" => equiv::c29,
        "C09" => ops::c09,
        "C16" => ops::c16,
        "C17" => ops::c17,
        "C18" => ops::c18,
        "C27" => ops::c27,
        "C02" => exec::c02,
        "C03" => limits::c03,
        "C07" => limits::c07,
        "C04" => exec::c04,
        "C05" => exec::c05,
        "C06" => exec::c06,
        "C08" => exec::c08,
        "C30" => exec::c30,
        _ => return None,
    })
}
