pub mod any;
pub mod doc;
pub mod rt;
pub mod util;
pub mod exp;
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c14;
pub mod c15;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;

/// Declares harness entries: `entry!(h_name, { body });`
#[macro_export]
macro_rules! entry {
    ($n:ident, $b:block) => {
        #[no_mangle]
        pub extern "C" fn $n() {
            $b
        }
    };
}

#[cfg(feature = "replay")]
include!(concat!(env!("OUT_DIR"), "/table.rs"));
