pub mod delivery;
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
#[cfg(feature = "trace")]
pub mod c10;
#[cfg(feature = "stored")]
pub mod c12;
