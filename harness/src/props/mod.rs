//! One module per area; `legs` lists the executable checks of each property.
use crate::runner::Leg;
#[cfg(feature = "ct")]
pub mod ct;
#[cfg(not(feature = "ct"))]
pub mod decaf;
#[cfg(not(feature = "ct"))]
pub mod edwards;
#[cfg(not(feature = "ct"))]
pub mod field;
#[cfg(not(feature = "ct"))]
pub mod history;
#[cfg(not(feature = "ct"))]
pub mod misc;
#[cfg(not(feature = "ct"))]
pub mod mont;
#[cfg(not(feature = "ct"))]
pub mod program;
#[cfg(not(feature = "ct"))]
pub mod protocol;
#[cfg(not(feature = "ct"))]
pub mod scalar;
#[cfg(all(feature = "twisted", not(feature = "ct")))]
pub mod twisted;

#[cfg(feature = "ct")]
pub fn legs(prop: &str) -> Vec<Box<dyn Leg>> {
    if prop == "C22" {
        ct::c22()
    } else {
        vec![]
    }
}
/// A build for one property contains only its legs (feature c01, c02, ...), which compiles faster; `all` has every leg.
#[cfg(not(feature = "ct"))]
pub fn legs(prop: &str) -> Vec<Box<dyn Leg>> {
    match prop {
        #[cfg(any(feature = "all", feature = "c01"))]
        "C01" => scalar::c01(),
        #[cfg(any(feature = "all", feature = "c02"))]
        "C02" => scalar::c02(),
        #[cfg(any(feature = "all", feature = "c03"))]
        "C03" => scalar::c03(),
        #[cfg(any(feature = "all", feature = "c04"))]
        "C04" => scalar::c04(),
        #[cfg(any(feature = "all", feature = "c05"))]
        "C05" => edwards::c05(),
        #[cfg(any(feature = "all", feature = "c06"))]
        "C06" => edwards::c06(),
        #[cfg(any(feature = "all", feature = "c07"))]
        "C07" => edwards::c07(),
        #[cfg(any(feature = "all", feature = "c08"))]
        "C08" => edwards::c08(),
        #[cfg(any(feature = "all", feature = "c09"))]
        "C09" => edwards::c09(),
        #[cfg(any(feature = "all", feature = "c10"))]
        "C10" => mont::c10(),
        #[cfg(any(feature = "all", feature = "c11"))]
        "C11" => mont::c11(),
        #[cfg(any(feature = "all", feature = "c12"))]
        "C12" => mont::c12(),
        #[cfg(any(feature = "all", feature = "c13"))]
        "C13" => decaf::c13(),
        #[cfg(any(feature = "all", feature = "c14"))]
        "C14" => decaf::c14(),
        #[cfg(any(feature = "all", feature = "c15"))]
        "C15" => decaf::c15(),
        #[cfg(any(feature = "all", feature = "c16"))]
        "C16" => program::c16(),
        #[cfg(any(feature = "all", feature = "c17"))]
        "C17" => field::c17(),
        #[cfg(any(feature = "all", feature = "c18"))]
        "C18" => {
            #[allow(unused_mut)]
            let mut v = edwards::c18();
            #[cfg(feature = "twisted")]
            v.extend(twisted::c18());
            v
        }
        #[cfg(any(feature = "all", feature = "c19"))]
        "C19" => program::c19(),
        #[cfg(any(feature = "all", feature = "c20"))]
        "C20" => {
            #[allow(unused_mut)]
            let mut v = misc::c20();
            #[cfg(feature = "twisted")]
            v.extend(twisted::c20());
            v
        }
        #[cfg(any(feature = "all", feature = "c21"))]
        "C21" => misc::c21(),
        #[cfg(any(feature = "all", feature = "c23"))]
        "C23" => history::c23(),
        #[cfg(any(feature = "all", feature = "c24"))]
        "C24" => protocol::c24(),
        _ => vec![],
    }
}
