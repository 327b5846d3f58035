pub mod barcodes;
pub mod canvas;
pub mod checks;
pub mod cmp;
pub mod engine;
pub mod gen;
pub mod css;
pub mod html;
pub mod items;
pub mod model;
pub mod qr;
pub mod runner;
pub mod sut;
pub mod tables;
