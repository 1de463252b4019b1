pub mod chart;
pub mod deck;
pub mod settings;
pub mod image;
pub mod shape;
pub mod table;
pub mod foreign;
