use crate::fw::CheckDef;

mod common;
mod lzo;
mod p3d;
mod paa;
mod pbo;
mod pre;
mod sign;
mod st;
mod conf;
mod faults;
mod ws;

pub const ALL: &[CheckDef] = &[
    CheckDef { id: "A01", run: pbo::roundtrip },
    CheckDef { id: "A02", run: pbo::lookup },
    CheckDef { id: "A03", run: sign::verify_check },
    CheckDef { id: "A04", run: sign::key_files },
    CheckDef { id: "A05", run: faults::check },
    CheckDef { id: "B01", run: lzo::compress_check },
    CheckDef { id: "B02", run: lzo::decode_check },
    CheckDef { id: "B03", run: paa::write_check },
    CheckDef { id: "B04", run: paa::read_check },
    CheckDef { id: "B05", run: p3d::model_check },
    CheckDef { id: "B06", run: p3d::missing_check },
    CheckDef { id: "E01", run: common::version_check },
    CheckDef { id: "E02", run: common::prefix_check },
    CheckDef { id: "E03", run: common::config_check },
    CheckDef { id: "E04", run: common::launch_check },
    CheckDef { id: "E05", run: common::lint_check },
    CheckDef { id: "E06", run: common::io_check },
    CheckDef { id: "E07", run: common::math_check },
    CheckDef { id: "C01", run: pre::cond_check },
    CheckDef { id: "C02", run: pre::macro_check },
    CheckDef { id: "C03", run: pre::include_check },
    CheckDef { id: "C04", run: pre::text_check },
    CheckDef { id: "C05", run: pre::total_check },
    CheckDef { id: "D01", run: conf::structure_check },
    CheckDef { id: "D02", run: conf::value_check },
    CheckDef { id: "D03", run: conf::accept_check },
    CheckDef { id: "D04", run: conf::lint_check },
    CheckDef { id: "D05", run: conf::patch_check },
    CheckDef { id: "F01", run: ws::locate_check },
    CheckDef { id: "F02", run: ws::discover_check },
    CheckDef { id: "F03", run: ws::position_check },
    CheckDef { id: "G01", run: st::text_check },
    CheckDef { id: "G02", run: st::order_check },
    CheckDef { id: "G03", run: st::comment_check },
    CheckDef { id: "G04", run: st::coverage_check },
    CheckDef { id: "G05", run: st::refuse_check },
    CheckDef { id: "F04", run: ws::lints_check },
];
