pub mod conn_props;
pub mod lang_props;
pub mod request_props;
pub mod response_props;
pub mod run_props;
pub mod shell_props;
pub mod verdict_props;
use crate::fw::Property;

pub type Make = fn() -> Property;

pub fn all() -> Vec<(&'static str, Make)> {
    vec![
        ("L01", lang_props::l01),
        ("L02", lang_props::l02),
        ("L03", lang_props::l03),
        ("L04", lang_props::l04),
        ("L05", lang_props::l05),
        ("H01", request_props::h01),
        ("H02", request_props::h02),
        ("H03", request_props::h03),
        ("H04", conn_props::h04),
        ("H05", response_props::h05),
        ("H06", response_props::h06),
        ("H07", conn_props::h07),
        ("H08", conn_props::h08),
        ("H09", conn_props::h09),
        ("H10", conn_props::h10),
        ("T01", verdict_props::t01),
        ("T02", verdict_props::t02),
        ("T03", run_props::t03),
        ("T04", run_props::t04),
        ("T05", run_props::t05),
        ("T06", run_props::t06),
        ("T07", shell_props::t07),
        ("T08", shell_props::t08),
        ("T09", shell_props::t09),
    ]
}
