#[allow(dead_code)]
#[path = "../../../harness/src/checks/lzo.rs"]
pub mod lzo;
#[allow(dead_code)]
#[path = "../../../harness/src/checks/pre.rs"]
pub mod pre;
#[allow(dead_code)]
#[path = "../../../harness/src/checks/paa.rs"]
pub mod paa;
#[allow(dead_code)]
#[path = "../../../harness/src/checks/pbo.rs"]
mod pbo;
pub mod proj;
pub mod proj2;
mod proj3;
mod proj4;
mod proj5;
mod proj6;
mod proj7;
mod proj8;
mod proj9;
mod sqf;
mod sqfrun;

use crate::fw::CheckDef;
pub const ALL: &[CheckDef] = &[
    CheckDef { id: "X01", run: sqf::x01 },
    CheckDef { id: "X02", run: sqf::x02 },
    CheckDef { id: "X03", run: sqf::x03 },
    CheckDef { id: "X04", run: proj::x04 },
    CheckDef { id: "X05", run: proj2::x05 },
    CheckDef { id: "X06", run: proj3::x06 },
    CheckDef { id: "X07", run: proj2::x07 },
    CheckDef { id: "X08", run: proj4::x08 },
    CheckDef { id: "X09", run: proj5::x09 },
    CheckDef { id: "X10", run: proj5::x10 },
    CheckDef { id: "X11", run: proj5::x11 },
    CheckDef { id: "X12", run: proj6::x12 },
    CheckDef { id: "X13", run: proj6::x13 },
    CheckDef { id: "X14", run: proj7::x14 },
    CheckDef { id: "X15", run: proj8::x15 },
    CheckDef { id: "X16", run: proj8::x16 },
    CheckDef { id: "X17", run: proj8::x17 },
    CheckDef { id: "X18", run: proj9::x18 },
];
